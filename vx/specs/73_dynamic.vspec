=== default P=A06 on=DynamicTopoSort bix=node_to_pos impl= tn:HashMap=VPosMap
=== raw dyn_env
use vstd::set_lib::{lemma_int_range, lemma_len_subset, set_int_range};
pub type VPosMap = VHashMap<NodeIndex, usize>;
impl<K, V: Copy> VHashMap<K, V> {
    #[verifier::external_body]
    pub fn v_at(&self, k: &K) -> (r: V) requires self@.dom().contains(*k), ensures r == self@[*k] { unimplemented!() }
}
/// p lists 0..n, each once.
pub open spec fn perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|k: int| #![trigger p[k]] 0 <= k < n ==> 0 <= p[k] < n
    &&& forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < n ==> p[j] != p[k]
    &&& forall|v: int| #![trigger p.contains(v)] 0 <= v < n ==> p.contains(v)
}
pub open spec fn permuted<T>(o: Seq<T>, f: Seq<T>, p: Seq<int>) -> bool { perm(p, o.len() as int) && f.len() == o.len() && forall|k: int| #![trigger f[k]] #![trigger p[k]] 0 <= k < o.len() ==> f[k] == o[p[k]] }
pub open spec fn sorted_of(o: Seq<usize>, f: Seq<usize>) -> bool {
    (exists|p: Seq<int>| #[trigger] permuted(o, f, p)) && forall|j: int, k: int| #![trigger f[j], f[k]] 0 <= j < k < f.len() ==> f[j] <= f[k]
}
pub open spec fn keyed_of<T>(o: Seq<T>, ks: Seq<usize>, f: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] permuted(o, f, p) && forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < o.len() ==> ks[p[j]] <= ks[p[k]]
}
/// `slice::sort`, `slice::sort_unstable` (assumed).
#[verifier::external_body]
pub fn v_sort(v: &mut Vec<usize>) ensures sorted_of(old(v)@, final(v)@) { unimplemented!() }
/// `slice::sort_by_key`, with the keys computed beforehand (assumed).
#[verifier::external_body]
pub fn v_sort_keyed<T>(v: &mut Vec<T>, ks: Vec<usize>) requires ks@.len() == old(v)@.len(), ensures keyed_of(old(v)@, ks@, final(v)@) { unimplemented!() }
/// y is a neighbour of x in direction d.
pub open spec fn ne<G: VView>(g: G, d: Direction, x: int, y: int) -> bool { exists|k: int| 0 <= k < g.nd(x, d).len() && (#[trigger] g.nd(x, d)[k]).i() == y }
/// The edges of the graph.
pub open spec fn ed<G: VView>(g: G) -> spec_fn(int, int) -> bool { |x: int, y: int| ne(g, Direction::Outgoing, x, y) }
pub trait VDyn: VView {
    proof fn dlaws(self)
        requires self.gok(),
        ensures
            forall|x: int, y: int| #![trigger ne(self, Direction::Outgoing, x, y)] #![trigger ne(self, Direction::Incoming, y, x)] ne(self, Direction::Outgoing, x, y) == ne(self, Direction::Incoming, y, x),
            forall|x: int, y: int| #![trigger ne(self, Direction::Outgoing, x, y)] ne(self, Direction::Outgoing, x, y) ==> self.hn(x) && self.hn(y);
    fn output_neighbours(&self, node: NodeIndex) -> (r: VIt<NodeIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.nd(node.i(), Direction::Outgoing);
    fn input_neighbours(&self, node: NodeIndex) -> (r: VIt<NodeIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.nd(node.i(), Direction::Incoming);
}
proof fn lemma_pg_ne(g: PortGraph, d: Direction, x: int, y: int)
    requires g.wf(), ne(g, d, x, y),
    ensures ne(g, rev_dir(d), y, x), g.has_node(x), g.has_node(y),
{
    let s = g.dlinks(x, d);
    theorem_links(g, x, d);
    let k = choose|k: int| 0 <= k < g.nd(x, d).len() && (#[trigger] g.nd(x, d)[k]).i() == y;
    let (a, b) = s[k];
    lemma_port(g, a.i()); lemma_port(g, b.i()); lemma_sym(g); lemma_pg_laws(g);
    assert(ppn(g, b.i()) >= 0);
    assert(NodeIndex::mk(g.pnode(b.i())).i() == g.pnode(b.i()));
    assert(far(g, s)[k] == NodeIndex::mk(g.pnode(b.i())));
    assert(g.pnode(b.i()) == y);
    assert(g.link(b.i()) == a.i());
    theorem_links(g, y, rev_dir(d));
    let t = g.dlinks(y, rev_dir(d));
    assert(t.contains((PortIndex::mk(b.i()), PortIndex::mk(g.link(b.i())))));
    let j = choose|j: int| 0 <= j < t.len() && t[j] == (PortIndex::mk(b.i()), PortIndex::mk(g.link(b.i())));
    assert(g.link(t[j].0.i()) == t[j].1.i());
    assert(t[j].1.i() == a.i());
    assert(ppn(g, a.i()) == x);
    assert(far(g, t)[j] == NodeIndex::mk(g.pnode(a.i())));
    assert(g.nd(y, rev_dir(d))[j].i() == x);
}
impl VDyn for PortGraph {
    proof fn dlaws(self) {
        assert forall|x: int, y: int| #![trigger ne(self, Direction::Outgoing, x, y)] #![trigger ne(self, Direction::Incoming, y, x)] ne(self, Direction::Outgoing, x, y) == ne(self, Direction::Incoming, y, x) by {
            if ne(self, Direction::Outgoing, x, y) { lemma_pg_ne(self, Direction::Outgoing, x, y); }
            if ne(self, Direction::Incoming, y, x) { lemma_pg_ne(self, Direction::Incoming, y, x); }
        }
        assert forall|x: int, y: int| #![trigger ne(self, Direction::Outgoing, x, y)] ne(self, Direction::Outgoing, x, y) implies self.hn(x) && self.hn(y) by { lemma_pg_ne(self, Direction::Outgoing, x, y); }
    }
    fn output_neighbours(&self, node: NodeIndex) -> (r: VIt<NodeIndex>) { v_it(self.output_neighbours(node)) }
    fn input_neighbours(&self, node: NodeIndex) -> (r: VIt<NodeIndex>) { v_it(self.input_neighbours(node)) }
}
=== type algorithms::dynamic DynamicTopoSort derive=none
=== type algorithms::dynamic DynamicTopoSortError derive=none
=== raw dyn_spec
impl DynamicTopoSort {
    pub open spec fn has(self, x: int) -> bool { NodeIndex::mk(x).i() == x && self.node_to_pos@.dom().contains(NodeIndex::mk(x)) }
    /// The position of node x.
    pub open spec fn ps(self, x: int) -> int { self.node_to_pos@[NodeIndex::mk(x)] as int }
    /// The order lists each of its nodes once, and the map gives the positions.
    pub open spec fn wf(self) -> bool {
        &&& forall|k: int| #![trigger self.order@[k]] 0 <= k < self.order@.len() ==> self.order@[k].wf() && self.node_to_pos@.dom().contains(self.order@[k]) && self.node_to_pos@[self.order@[k]] == k
        &&& forall|n: NodeIndex| #![trigger self.node_to_pos@.dom().contains(n)] self.node_to_pos@.dom().contains(n) ==> n.wf() && self.node_to_pos@[n] < self.order@.len() && self.order@[self.node_to_pos@[n] as int] == n
    }
    pub open spec fn covers<G: VView>(self, g: G) -> bool { g.gok() && forall|x: int| #![trigger g.hn(x)] g.hn(x) ==> self.has(x) }
    /// Every edge of the graph leads forward in the order, except perhaps the one from f to t.
    pub open spec fn fits<G: VView>(self, g: G, f: int, t: int) -> bool {
        &&& self.wf()
        &&& self.covers(g)
        &&& forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) && !(x == f && y == t) ==> self.ps(x) < self.ps(y)
    }
    /// The order is a topological order of the graph.
    pub open spec fn valid<G: VView>(self, g: G) -> bool { self.fits(g, -1, -1) && forall|x: int| #![trigger self.has(x)] self.has(x) ==> g.hn(x) }
    /// The position of x is on the near side of the bound.
    pub open spec fn inb(self, d: Direction, b: int, x: int) -> bool { match d { Direction::Outgoing => self.ps(x) < b, Direction::Incoming => self.ps(x) > b } }
}
pub proof fn lemma_nmk(n: NodeIndex)
    requires n.wf(),
    ensures NodeIndex::mk(n.i()) == n, 0 <= n.i() <= top(),
{}
pub open spec fn isin(s: Seq<NodeIndex>, y: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i() == y }
pub open spec fn rd<G: VView>(g: G, d: Direction, n: int, x: int) -> bool { match d { Direction::Outgoing => reach(ed(g), n, x), Direction::Incoming => reach(ed(g), x, n) } }
proof fn lemma_rd<G: VDyn>(g: G, d: Direction, n: int)
    requires g.gok(),
    ensures rd(g, d, n, n), forall|y: int, x: int| #![trigger ne(g, d, n, y), rd(g, d, y, x)] ne(g, d, n, y) && rd(g, d, y, x) ==> rd(g, d, n, x),
{
    g.dlaws();
    lemma_reach(ed(g));
    assert(reach(ed(g), n, n));
    assert forall|y: int, x: int| #![trigger ne(g, d, n, y), rd(g, d, y, x)] ne(g, d, n, y) && rd(g, d, y, x) implies rd(g, d, n, x) by {
        match d {
            Direction::Outgoing => { assert((ed(g))(n, y)); }
            Direction::Incoming => { assert(ne(g, Direction::Outgoing, y, n)); assert((ed(g))(y, n)); }
        }
    }
}
/// The way to f leads forward.
proof fn lemma_up<G: VDyn>(s: DynamicTopoSort, g: G, f: int, t: int, x: int, k: nat)
    requires s.fits(g, f, t), walk(ed(g), x, f, k),
    ensures x == f || s.ps(x) < s.ps(f),
    decreases k,
{
    if k > 0 && x != f {
        let z = choose|z: int| #[trigger] (ed(g))(x, z) && walk(ed(g), z, f, (k - 1) as nat);
        assert(ne(g, Direction::Outgoing, x, z));
        lemma_up(s, g, f, t, z, (k - 1) as nat);
    }
}
/// The way from x leads forward when it does not pass f.
proof fn lemma_dn<G: VDyn>(s: DynamicTopoSort, g: G, f: int, t: int, x: int, y: int, k: nat)
    requires s.fits(g, f, t), walk(ed(g), x, y, k), !reach(ed(g), x, f),
    ensures x == y || s.ps(x) < s.ps(y),
    decreases k,
{
    if k > 0 && x != y {
        let z = choose|z: int| #[trigger] (ed(g))(x, z) && walk(ed(g), z, y, (k - 1) as nat);
        assert(ne(g, Direction::Outgoing, x, z));
        lemma_reach(ed(g));
        assert(reach(ed(g), x, x));
        if reach(ed(g), z, f) { assert((ed(g))(x, z)); assert(reach(ed(g), x, f)); }
        lemma_dn(s, g, f, t, z, y, (k - 1) as nat);
    }
}
=== fn algorithms::dynamic DynamicTopoSort::add_node
--- spec
requires old(self).wf(), node.wf(),
ensures
    final(self).wf(),
    final(self).order@ == (if old(self).has(node.i()) { old(self).order@ } else { old(self).order@.push(node) }),
    final(self).node_to_pos@.dom() =~= old(self).node_to_pos@.dom().insert(node),
    forall|x: int| #![trigger final(self).ps(x)] #![trigger old(self).ps(x)] old(self).has(x) ==> final(self).ps(x) == old(self).ps(x),
--- hint start
proof { lemma_nmk(node); }
=== raw dyn_remove
pub open spec fn renumbered(o: DynamicTopoSort, s: DynamicTopoSort, node: NodeIndex, p: int, n: int) -> bool {
    &&& s.order@ == o.order@.remove(p)
    &&& s.node_to_pos@.dom() =~= o.node_to_pos@.dom().remove(node)
    &&& forall|k: int| #![trigger s.order@[k]] 0 <= k < n && k < s.order@.len() ==> s.node_to_pos@[s.order@[k]] == k
}
proof fn lemma_renumbered(o: DynamicTopoSort, s: DynamicTopoSort, node: NodeIndex, p: int)
    requires o.wf(), o.node_to_pos@.dom().contains(node), p == o.node_to_pos@[node], renumbered(o, s, node, p, s.order@.len() as int),
    ensures
        s.wf(),
        forall|x: int| #![trigger s.ps(x)] #![trigger o.ps(x)] s.has(x) ==> s.ps(x) == (if o.ps(x) < p { o.ps(x) } else { o.ps(x) - 1 }) && o.ps(x) != p,
{
    assert forall|k: int| #![trigger s.order@[k]] 0 <= k < s.order@.len() implies s.order@[k].wf() && s.node_to_pos@.dom().contains(s.order@[k]) && s.node_to_pos@[s.order@[k]] == k by {
        let j = if k < p { k } else { k + 1 };
        assert(s.order@[k] == o.order@[j]);
        assert(o.order@[p] == node);
    }
    assert forall|n: NodeIndex| #![trigger s.node_to_pos@.dom().contains(n)] s.node_to_pos@.dom().contains(n) implies n.wf() && s.node_to_pos@[n] < s.order@.len() && s.order@[s.node_to_pos@[n] as int] == n
        && s.node_to_pos@[n] == (if o.node_to_pos@[n] < p { o.node_to_pos@[n] as int } else { o.node_to_pos@[n] - 1 }) && o.node_to_pos@[n] != p by {
        assert(o.node_to_pos@.dom().contains(n));
        let j = o.node_to_pos@[n] as int;
        assert(o.order@[j] == n && o.order@[p] == node);
        let k = if j < p { j } else { j - 1 };
        assert(s.order@[k] == o.order@[j]);
    }
    assert forall|x: int| #![trigger s.ps(x)] #![trigger o.ps(x)] s.has(x) implies s.ps(x) == (if o.ps(x) < p { o.ps(x) } else { o.ps(x) - 1 }) && o.ps(x) != p by {
        assert(s.node_to_pos@.dom().contains(NodeIndex::mk(x)));
    }
}
=== fn algorithms::dynamic DynamicTopoSort::remove_node eager
--- spec
requires old(self).wf(), node.wf(),
ensures
    final(self).wf(), r is Ok <==> old(self).has(node.i()),
    r is Err ==> final(self).order@ == old(self).order@ && final(self).node_to_pos@ =~= old(self).node_to_pos@,
    r is Ok ==> final(self).order@ == old(self).order@.remove(old(self).ps(node.i())),
    final(self).node_to_pos@.dom() =~= old(self).node_to_pos@.dom().remove(node),
    forall|x: int, y: int| #![trigger final(self).ps(x), final(self).ps(y)] final(self).has(x) && final(self).has(y) && old(self).ps(x) < old(self).ps(y) ==> final(self).ps(x) < final(self).ps(y),
--- hint start
proof { lemma_nmk(node); }
--- hint after remove#1
proof { assert(self.order.len() == self.order@.len()); }
--- loop 0
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(),
    renumbered(*old(self), *self, node, pos as int, $all.len() - $it.rest().len()),
    $all.len() == self.order@.len(),
    forall|k: int| #![trigger $all[k]] 0 <= k < $all.len() ==> $all[k].0 == k && *$all[k].1 == self.order@[k],
--- hint loop0.start
let ghost j = __all0.len() - __it0.rest().len() - 1;
let ghost b = *self;
proof { assert(__all0[j].0 == i); assert(old(self).order@[if j < pos { j } else { j + 1 }] == n); assert(old(self).order@[pos as int] == node); }
--- hint loop0.end
proof {
    assert forall|k: int| #![trigger self.order@[k]] 0 <= k < j + 1 && k < self.order@.len() implies self.node_to_pos@[self.order@[k]] == k by {
        assert(self.order@[k] == old(self).order@[if k < pos { k } else { k + 1 }]);
    }
}
--- hint loop0.done
proof { lemma_renumbered(*old(self), *self, node, pos as int); }
=== fn algorithms::dynamic DynamicTopoSort::disconnect_nodes gen=G:VDyn
--- spec
requires from.wf(), to.wf(),
ensures *final(self) == *old(self), r is Ok <==> old(self).has(from.i()) && old(self).has(to.i()),
--- hint start
proof { lemma_nmk(from); lemma_nmk(to); }
=== fn algorithms::dynamic DynamicTopoSort::get_order
--- spec
ensures *r == self.order,
=== raw dyn_swap
pub open spec fn swp(a: NodeIndex, b: NodeIndex, n: NodeIndex) -> NodeIndex { if n == a { b } else if n == b { a } else { n } }
=== fn algorithms::dynamic DynamicTopoSort::swap_nodes
--- spec
requires old(self).wf(), a.wf(), b.wf(),
ensures
    final(self).wf(),
    final(self).order@.len() == old(self).order@.len(),
    forall|k: int| #![trigger final(self).order@[k]] 0 <= k < old(self).order@.len() ==> final(self).order@[k] == swp(a, b, old(self).order@[k]),
--- loop 0
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(),
    $all == seq![(b, pos_a), (a, pos_b)],
    self.order@.len() == old(self).order@.len(),
    pos_a matches Some(p) ==> p < self.order@.len() && old(self).order@[p as int] == a && old(self).node_to_pos@[a] == p,
    pos_b matches Some(p) ==> p < self.order@.len() && old(self).order@[p as int] == b && old(self).node_to_pos@[b] == p,
    pos_a is Some <==> old(self).node_to_pos@.dom().contains(a),
    a != b ==> (pos_b is Some <==> old(self).node_to_pos@.dom().contains(b)),
    a == b ==> pos_b is None,
    forall|k: int| #![trigger self.order@[k]] 0 <= k < self.order@.len() ==> self.order@[k] == (
        if $it.rest().len() < 2 && (pos_a matches Some(p) && p == k) { b } else if $it.rest().len() < 1 && (pos_b matches Some(p) && p == k) { a } else { old(self).order@[k] }),
    forall|n: NodeIndex| #![trigger self.node_to_pos@.dom().contains(n)] self.node_to_pos@.dom().contains(n) <==> (
        if n == b && $it.rest().len() < 2 && pos_a is Some { true } else if n == a && $it.rest().len() < 1 && pos_b is Some { true } else { n != a && n != b && old(self).node_to_pos@.dom().contains(n) }),
    forall|n: NodeIndex| #![trigger self.node_to_pos@[n]] self.node_to_pos@.dom().contains(n) ==> self.node_to_pos@[n] == (
        if n == b { pos_a.unwrap() } else if n == a { pos_b.unwrap() } else { old(self).node_to_pos@[n] }),
--- hint start
proof { lemma_nmk(a); lemma_nmk(b); }
=== raw dyn_bfs
pub open spec fn near(s: DynamicTopoSort, from: int, y: int) -> bool { s.has(from) ==> s.ps(y) <= s.ps(from) }
/// Every neighbour before `from` was visited or is waiting.
pub open spec fn led<G: VView>(s: DynamicTopoSort, g: G, from: int, vs: Set<int>, q: Seq<NodeIndex>, x: int, n: int) -> bool {
    forall|k: int| #![trigger g.nd(x, Direction::Outgoing)[k]] 0 <= k < n && near(s, from, g.nd(x, Direction::Outgoing)[k].i()) ==> vs.contains(g.nd(x, Direction::Outgoing)[k].i()) || isin(q, g.nd(x, Direction::Outgoing)[k].i())
}
pub open spec fn deg<G: VView>(g: G, x: int) -> int { g.nd(x, Direction::Outgoing).len() as int }
/// A search from `to`; n neighbours of `cur` are done.
#[verifier::opaque]
pub open spec fn bfs<G: VView>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, q: Seq<NodeIndex>, cur: int, n: int) -> bool {
    &&& forall|k: int| #![trigger q[k]] 0 <= k < q.len() ==> q[k].wf() && reach(ed(g), to, q[k].i())
    &&& forall|x: NodeIndex| #![trigger vis.has(x)] vis.has(x) ==> vs.contains(x.i())
    &&& forall|x: int| #![trigger vs.contains(x)] vs.contains(x) ==> 0 <= x <= top() && x != from && vis.has(NodeIndex::mk(x)) && led(s, g, from, vs, q, x, if x == cur { n } else { deg(g, x) })
    &&& vs.contains(to) || isin(q, to)
}
proof fn lemma_bfs_start<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: NodeIndex, vis: HashSet<NodeIndex>)
    requires to.wf(), forall|x: NodeIndex| #![trigger vis.has(x)] !vis.has(x),
    ensures bfs(s, g, from, to.i(), vis, Set::<int>::empty(), Seq::<NodeIndex>::empty().push(to), -1, 0),
{
    reveal(bfs); lemma_reach(ed(g));
    let q = Seq::<NodeIndex>::empty().push(to);
    assert(q[0] == to);
    assert(reach(ed(g), to.i(), to.i()));
    assert(isin(q, to.i()));
}
proof fn lemma_bfs_pop<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, q: Seq<NodeIndex>)
    requires bfs(s, g, from, to, vis, vs, q, -1, 0), q.len() > 0, q[0].i() != from,
    ensures
        q[0].wf(), reach(ed(g), to, q[0].i()), 0 <= q[0].i() <= top(),
        forall|w: HashSet<NodeIndex>| #![trigger w.upd(vis, q[0], true)] w.upd(vis, q[0], true) && vis.has(q[0]) ==> bfs(s, g, from, to, w, vs, q.skip(1), -1, 0),
        forall|w: HashSet<NodeIndex>| #![trigger w.upd(vis, q[0], true)] w.upd(vis, q[0], true) ==> bfs(s, g, from, to, w, vs.insert(q[0].i()), q.skip(1), q[0].i(), 0),
        vis.has(q[0]) == vs.contains(q[0].i()),
{
    reveal(bfs);
    lemma_nmk(q[0]);
    assert(q[0].wf());
    let t = q.skip(1);
    let x0 = q[0].i();
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].wf() && reach(ed(g), to, t[k].i()) by { assert(t[k] == q[k + 1]); }
    assert forall|y: int| #![trigger isin(q, y)] isin(q, y) implies y == x0 || isin(t, y) by {
        let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).i() == y;
        if k > 0 { assert(t[k - 1].i() == y); }
    }
    if vis.has(q[0]) {
        assert(vs.contains(x0));
        assert forall|x: int| #![trigger vs.contains(x)] vs.contains(x) implies led(s, g, from, vs, t, x, deg(g, x)) by {
            assert(led(s, g, from, vs, q, x, if x == -1 { 0 } else { deg(g, x) }));
        }
        assert forall|w: HashSet<NodeIndex>| #![trigger w.upd(vis, q[0], true)] w.upd(vis, q[0], true) implies bfs(s, g, from, to, w, vs, q.skip(1), -1, 0) by {
            assert forall|x: NodeIndex| #![trigger w.has(x)] w.has(x) implies vs.contains(x.i()) by { assert(vis.has(x) || x == q[0]); }
            assert forall|x: int| #![trigger vs.contains(x)] vs.contains(x) implies w.has(NodeIndex::mk(x)) by { assert(vis.has(NodeIndex::mk(x))); }
        }
    }
    assert forall|w: HashSet<NodeIndex>| #![trigger w.upd(vis, q[0], true)] w.upd(vis, q[0], true) implies bfs(s, g, from, to, w, vs.insert(q[0].i()), q.skip(1), q[0].i(), 0) by {
        let us = vs.insert(x0);
        assert forall|x: int| #![trigger us.contains(x)] us.contains(x) implies 0 <= x <= top() && x != from && w.has(NodeIndex::mk(x)) && led(s, g, from, us, t, x, if x == x0 { 0 } else { deg(g, x) }) by {
            if x != x0 { assert(vs.contains(x)); assert(led(s, g, from, vs, q, x, if x == -1 { 0 } else { deg(g, x) })); }
        }
        assert forall|x: NodeIndex| #![trigger w.has(x)] w.has(x) implies us.contains(x.i()) by { if x != q[0] { assert(vis.has(x)); } }
    }
}
proof fn lemma_bfs_front<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, q: Seq<NodeIndex>)
    requires bfs(s, g, from, to, vis, vs, q, -1, 0), q.len() > 0,
    ensures q[0].wf(), reach(ed(g), to, q[0].i()), NodeIndex::mk(q[0].i()) == q[0],
{ reveal(bfs); assert(q[0].wf()); lemma_nmk(q[0]); }
proof fn lemma_bfs_push<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, q: Seq<NodeIndex>, r: Seq<NodeIndex>, cur: int, n: int)
    requires
        g.gok(), bfs(s, g, from, to, vis, vs, q, cur, n), 0 <= n < deg(g, cur), reach(ed(g), to, cur), vs.contains(cur),
        r == q.push(g.nd(cur, Direction::Outgoing)[n]) || (r == q && !near(s, from, g.nd(cur, Direction::Outgoing)[n].i())),
    ensures bfs(s, g, from, to, vis, vs, r, cur, n + 1),
{
    reveal(bfs);
    g.laws(); lemma_reach(ed(g));
    let y = g.nd(cur, Direction::Outgoing)[n];
    assert(ne(g, Direction::Outgoing, cur, y.i()));
    assert((ed(g))(cur, y.i()));
    assert(reach(ed(g), to, y.i()));
    assert forall|y: int| #![trigger isin(q, y)] isin(q, y) implies isin(r, y) by {
        let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).i() == y;
        assert(r[k] == q[k]);
    }
    if r.len() > q.len() { assert(r[q.len() as int] == y); assert(isin(r, y.i())); }
    assert forall|x: int| #![trigger vs.contains(x)] vs.contains(x) implies led(s, g, from, vs, r, x, if x == cur { n + 1 } else { deg(g, x) }) by {
        assert(led(s, g, from, vs, q, x, if x == cur { n } else { deg(g, x) }));
    }
}
proof fn lemma_bfs_next<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, q: Seq<NodeIndex>, cur: int)
    requires bfs(s, g, from, to, vis, vs, q, cur, deg(g, cur)),
    ensures bfs(s, g, from, to, vis, vs, q, -1, 0),
{ reveal(bfs); assert forall|x: int| #![trigger vs.contains(x)] vs.contains(x) implies led(s, g, from, vs, q, x, if x == -1 { 0 } else { deg(g, x) }) by {} }
/// `from` was not found.
proof fn lemma_bfs_done<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, x: int, k: nat)
    requires s.fits(g, from, to), bfs(s, g, from, to, vis, vs, Seq::empty(), -1, 0), vs.contains(x), walk(ed(g), x, from, k),
    ensures false,
    decreases k,
{
    reveal(bfs);
    if k > 0 {
        let z = choose|z: int| #[trigger] (ed(g))(x, z) && walk(ed(g), z, from, (k - 1) as nat);
        assert(ne(g, Direction::Outgoing, x, z));
        lemma_up(s, g, from, to, z, (k - 1) as nat);
        let j = choose|j: int| 0 <= j < g.nd(x, Direction::Outgoing).len() && (#[trigger] g.nd(x, Direction::Outgoing)[j]).i() == z;
        assert(led(s, g, from, vs, Seq::empty(), x, if x == -1 { 0 } else { deg(g, x) }));
        assert(near(s, from, g.nd(x, Direction::Outgoing)[j].i()));
        assert(!isin(Seq::empty(), z));
        lemma_bfs_done(s, g, from, to, vis, vs, z, (k - 1) as nat);
    }
}
proof fn lemma_bfs_none<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>)
    requires s.fits(g, from, to), bfs(s, g, from, to, vis, vs, Seq::empty(), -1, 0),
    ensures !reach(ed(g), to, from),
{
    if reach(ed(g), to, from) {
        let k = choose|k: nat| #[trigger] walk(ed(g), to, from, k);
        assert(vs.contains(to)) by { reveal(bfs); assert(!isin(Seq::empty(), to)); }
        lemma_bfs_done(s, g, from, to, vis, vs, to, k);
    }
}
proof fn lemma_bfs_size<G: VDyn>(s: DynamicTopoSort, g: G, from: int, to: int, vis: HashSet<NodeIndex>, vs: Set<int>, q: Seq<NodeIndex>, cur: int, n: int)
    requires bfs(s, g, from, to, vis, vs, q, cur, n),
    ensures vs.len() <= top() + 1,
{
    reveal(bfs);
    lemma_int_range(0, top() + 1);
    assert(vs.subset_of(set_int_range(0, top() + 1)));
    lemma_len_subset(vs, set_int_range(0, top() + 1));
}
=== fn algorithms::dynamic DynamicTopoSort::would_create_cycle gen=G:VDyn
--- spec
requires self.fits(*graph, from.i(), to.i()), from.wf(), to.wf(),
ensures r == reach(ed(*graph), to.i(), from.i()),
--- hint start
proof { lemma_nmk(from); lemma_nmk(to); }
--- hint after push_back#0
let ghost mut vs = Set::<int>::empty();
proof { lemma_bfs_start(*self, *graph, from.i(), to, visited); }
--- loop 0
invariant_except_break
    bfs(*self, *graph, from.i(), to.i(), visited, vs, queue.q(), -1, 0),
invariant
    from_pos == (if self.has(from.i()) { self.ps(from.i()) } else { usize::MAX as int }),
ensures
    bfs(*self, *graph, from.i(), to.i(), visited, vs, queue.q(), -1, 0), queue.q().len() == 0,
decreases top() + 1 - vs.len(), queue.q().len(),
--- hint loop0.start
let ghost q0 = queue.q();
let ghost vs0 = vs;
proof { if q0.len() > 0 { lemma_bfs_front(*self, *graph, from.i(), to.i(), visited, vs, q0); } }
--- hint before insert#0
proof { lemma_bfs_pop(*self, *graph, from.i(), to.i(), visited, vs, q0); }
let ghost vis0 = visited;
--- loop 1
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(),
    bfs(*self, *graph, from.i(), to.i(), visited, vs, queue.q(), node.i(), $all.len() - $it.rest().len()),
    $all == graph.nd(node.i(), Direction::Outgoing),
    vs.contains(node.i()),
--- hint before loop1
proof { vs = vs.insert(node.i()); assert(visited.upd(vis0, q0[0], true)); }
--- hint loop1.start
let ghost q1 = queue.q();
proof {
    graph.laws(); graph.dlaws();
    lemma_nmk(neighbor);
    let j = __all1.len() - __it1.rest().len() - 1;
    assert(graph.nd(node.i(), Direction::Outgoing)[j] == neighbor);
    assert(ne(*graph, Direction::Outgoing, node.i(), neighbor.i()));
}
--- hint loop1.end
proof { lemma_bfs_push(*self, *graph, from.i(), to.i(), visited, vs, q1, queue.q(), node.i(), __all1.len() - __it1.rest().len() - 1); }
--- hint loop1.done
proof {
    lemma_bfs_next(*self, *graph, from.i(), to.i(), visited, vs, queue.q(), node.i());
    lemma_bfs_size(*self, *graph, from.i(), to.i(), visited, vs, queue.q(), -1, 0);
}
--- hint end
proof { if !__ret { assert(queue.q() =~= Seq::empty()); lemma_bfs_none(*self, *graph, from.i(), to.i(), visited, vs); } }
=== raw dyn_cone
/// The nodes of the cone, in the order of the visit.
pub open spec fn cv(s: DynamicTopoSort, vis: HashSet<NodeIndex>, c: Seq<NodeIndex>) -> bool {
    &&& forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].wf() && vis.has(c[k]) && s.has(c[k].i())
    &&& forall|x: NodeIndex| #![trigger vis.has(x)] vis.has(x) ==> x.wf() && isin(c, x.i())
    &&& forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() ==> c[j] != c[k]
}
/// The neighbours of x on the near side of the bound were visited.
pub open spec fn dcl<G: VView>(s: DynamicTopoSort, g: G, d: Direction, b: int, vis: HashSet<NodeIndex>, x: int) -> bool {
    forall|y: int| #![trigger ne(g, d, x, y)] ne(g, d, x, y) && s.inb(d, b, y) ==> vis.has(NodeIndex::mk(y))
}
pub open spec fn more(o: HashSet<NodeIndex>, f: HashSet<NodeIndex>) -> bool { forall|x: NodeIndex| #![trigger o.has(x)] #![trigger f.has(x)] o.has(x) ==> f.has(x) }
/// What a visit of n adds.
pub open spec fn added_by<G: VView>(s: DynamicTopoSort, g: G, d: Direction, b: int, o: HashSet<NodeIndex>, f: HashSet<NodeIndex>, n: int, skip: int) -> bool {
    forall|x: NodeIndex| #![trigger f.has(x)] f.has(x) && !o.has(x) ==> s.inb(d, b, x.i()) && rd(g, d, n, x.i()) && (x.i() != skip ==> dcl(s, g, d, b, f, x.i()))
}
proof fn lemma_room(s: DynamicTopoSort, c: Seq<NodeIndex>, n: NodeIndex)
    requires
        s.wf(), n.wf(), s.has(n.i()),
        forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].wf() && s.has(c[k].i()) && c[k] != n,
        forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() ==> c[j] != c[k],
    ensures c.len() < s.order@.len(),
{
    lemma_nmk(n);
    let t = Seq::new((c.len() + 1) as nat, |k: int| if k < c.len() { s.ps(c[k].i()) } else { s.ps(n.i()) });
    let m = s.order@.len() as int;
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies 0 <= t[k] < m && s.order@[t[k]] == (if k < c.len() { c[k] } else { n }) by {
        if k < c.len() { lemma_nmk(c[k]); assert(s.node_to_pos@.dom().contains(c[k])); } else { assert(s.node_to_pos@.dom().contains(n)); }
    }
    assert forall|j: int, k: int| 0 <= j < t.len() && 0 <= k < t.len() && j != k implies t[j] != t[k] by {
        if t[j] == t[k] { assert(s.order@[t[j]] == s.order@[t[k]]); if j < c.len() && k < c.len() { if j < k { assert(c[j] != c[k]); } else { assert(c[k] != c[j]); } } }
    }
    t.unique_seq_to_set();
    lemma_int_range(0, m);
    assert forall|v: int| #![trigger t.to_set().contains(v)] t.to_set().contains(v) implies set_int_range(0, m).contains(v) by {
        let k = choose|k: int| 0 <= k < t.len() && t[k] == v;
        assert(0 <= t[k] < m);
    }
    assert(t.to_set().subset_of(set_int_range(0, m)));
    lemma_len_subset(t.to_set(), set_int_range(0, m));
}
proof fn lemma_len(s: DynamicTopoSort, vis: HashSet<NodeIndex>, c: Seq<NodeIndex>)
    requires s.wf(), cv(s, vis, c),
    ensures c.len() <= s.order@.len(),
{
    if c.len() > 0 {
        let t = c.drop_last(); let n = c.last();
        assert(c[c.len() - 1] == n);
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].wf() && s.has(t[k].i()) && t[k] != n by { assert(t[k] == c[k]); }
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < k < t.len() implies t[j] != t[k] by { assert(c[j] != c[k]); }
        lemma_room(s, t, n);
    }
}
/// A call for a neighbour y of n.
proof fn lemma_visit<G: VDyn>(s: DynamicTopoSort, g: G, d: Direction, b: int, o: HashSet<NodeIndex>, m: HashSet<NodeIndex>, f: HashSet<NodeIndex>, n: int, y: int)
    requires g.gok(), more(o, m), more(m, f), added_by(s, g, d, b, o, m, n, n), added_by(s, g, d, b, m, f, y, -1), ne(g, d, n, y),
    ensures more(o, f), added_by(s, g, d, b, o, f, n, n),
{
    lemma_rd(g, d, n);
    assert forall|x: NodeIndex| #![trigger f.has(x)] f.has(x) && !o.has(x) implies s.inb(d, b, x.i()) && rd(g, d, n, x.i()) && (x.i() != n ==> dcl(s, g, d, b, f, x.i())) by {
        if m.has(x) {
            if x.i() != n {
                assert(dcl(s, g, d, b, m, x.i()));
                assert forall|z: int| #![trigger ne(g, d, x.i(), z)] ne(g, d, x.i(), z) && s.inb(d, b, z) implies f.has(NodeIndex::mk(z)) by { assert(m.has(NodeIndex::mk(z))); }
            }
        } else { assert(rd(g, d, y, x.i())); }
    }
}
=== fn algorithms::dynamic DynamicTopoSort::dfs gen=G:VDyn
--- spec
requires self.wf(), self.covers(*graph), n.wf(), self.has(n.i()), cv(*self, *old(visited), old(cone)@),
ensures
    !r, cv(*self, *final(visited), final(cone)@), final(cone)@.len() >= old(cone)@.len(),
    more(*old(visited), *final(visited)),
    added_by(*self, *graph, dir, bound as int, *old(visited), *final(visited), n.i(), -1),
    self.inb(dir, bound as int, n.i()) ==> final(visited).has(n),
decreases self.order@.len() - old(cone)@.len(),
--- hint start
proof { lemma_nmk(n); graph.laws(); graph.dlaws(); }
--- hint after insert#0
proof { assert forall|k: int| #![trigger old(cone)@[k]] 0 <= k < old(cone)@.len() implies old(cone)@[k] != n by { assert(old(visited).has(old(cone)@[k])); } lemma_room(*self, old(cone)@, n); lemma_rd(*graph, dir, n.i()); }
--- hint after push#0
proof {
    let c = cone@;
    assert(c[c.len() - 1] == n);
    assert forall|x: NodeIndex| #![trigger visited.has(x)] visited.has(x) implies x.wf() && isin(c, x.i()) by {
        if old(visited).has(x) { let k = choose|k: int| 0 <= k < old(cone)@.len() && (#[trigger] old(cone)@[k]).i() == x.i(); assert(c[k] == old(cone)@[k]); }
    }
}
--- loop 0
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(),
    $all == graph.nd(n.i(), dir), dir == Direction::Outgoing,
    cv(*self, *visited, cone@), cone@.len() > old(cone)@.len(), cone@.len() <= self.order@.len(),
    more(*old(visited), *visited), visited.has(n), !old(visited).has(n),
    added_by(*self, *graph, dir, bound as int, *old(visited), *visited, n.i(), n.i()),
    forall|k: int| #![trigger $all[k]] 0 <= k < $all.len() - $it.rest().len() && self.inb(dir, bound as int, $all[k].i()) ==> visited.has($all[k]),
--- hint loop0.start
let ghost v0 = *visited;
let ghost j = __all0.len() - __it0.rest().len() - 1;
proof {
    assert(__all0[j] == neighbor);
    assert(graph.nd(n.i(), dir)[j].i() == neighbor.i());
    assert(ne(*graph, dir, n.i(), neighbor.i()));
    assert(ne(*graph, Direction::Outgoing, n.i(), neighbor.i()) || ne(*graph, Direction::Outgoing, neighbor.i(), n.i()));
}
--- hint loop0.end
proof {
    lemma_visit(*self, *graph, dir, bound as int, *old(visited), v0, *visited, n.i(), neighbor.i());
    lemma_len(*self, *visited, cone@);
}
--- hint loop0.done
proof {
    assert(added_by(*self, *graph, dir, bound as int, *old(visited), *visited, n.i(), -1)) by {
        assert forall|y: int| #![trigger ne(*graph, dir, n.i(), y)] ne(*graph, dir, n.i(), y) && self.inb(dir, bound as int, y) implies visited.has(NodeIndex::mk(y)) by {
            let k = choose|k: int| 0 <= k < graph.nd(n.i(), dir).len() && (#[trigger] graph.nd(n.i(), dir)[k]).i() == y;
            lemma_nmk(__all0[k]);
        }
    }
}
--- loop 1
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(),
    $all == graph.nd(n.i(), dir), dir == Direction::Incoming,
    cv(*self, *visited, cone@), cone@.len() > old(cone)@.len(), cone@.len() <= self.order@.len(),
    more(*old(visited), *visited), visited.has(n), !old(visited).has(n),
    added_by(*self, *graph, dir, bound as int, *old(visited), *visited, n.i(), n.i()),
    forall|k: int| #![trigger $all[k]] 0 <= k < $all.len() - $it.rest().len() && self.inb(dir, bound as int, $all[k].i()) ==> visited.has($all[k]),
--- hint loop1.start
let ghost v0 = *visited;
let ghost j = __all1.len() - __it1.rest().len() - 1;
proof {
    assert(__all1[j] == neighbor);
    assert(graph.nd(n.i(), dir)[j].i() == neighbor.i());
    assert(ne(*graph, dir, n.i(), neighbor.i()));
    assert(ne(*graph, Direction::Outgoing, n.i(), neighbor.i()) || ne(*graph, Direction::Outgoing, neighbor.i(), n.i()));
}
--- hint loop1.end
proof {
    lemma_visit(*self, *graph, dir, bound as int, *old(visited), v0, *visited, n.i(), neighbor.i());
    lemma_len(*self, *visited, cone@);
}
--- hint loop1.done
proof {
    assert(added_by(*self, *graph, dir, bound as int, *old(visited), *visited, n.i(), -1)) by {
        assert forall|y: int| #![trigger ne(*graph, dir, n.i(), y)] ne(*graph, dir, n.i(), y) && self.inb(dir, bound as int, y) implies visited.has(NodeIndex::mk(y)) by {
            let k = choose|k: int| 0 <= k < graph.nd(n.i(), dir).len() && (#[trigger] graph.nd(n.i(), dir)[k]).i() == y;
            lemma_nmk(__all1[k]);
        }
    }
}
=== raw dyn_cone_ok
/// c lists the nodes that can be reached from st within the bound, each once; it is closed under such steps.
pub open spec fn cone_ok<G: VView>(s: DynamicTopoSort, g: G, d: Direction, b: int, st: int, c: Seq<NodeIndex>) -> bool {
    &&& forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].wf() && s.has(c[k].i()) && s.inb(d, b, c[k].i()) && rd(g, d, st, c[k].i())
    &&& forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() ==> c[j] != c[k]
    &&& forall|x: int, y: int| #![trigger isin(c, x), ne(g, d, x, y)] isin(c, x) && ne(g, d, x, y) && s.inb(d, b, y) ==> isin(c, y)
    &&& s.inb(d, b, st) ==> isin(c, st)
}
proof fn lemma_cone<G: VDyn>(s: DynamicTopoSort, g: G, d: Direction, b: int, st: NodeIndex, c: Seq<NodeIndex>, o: HashSet<NodeIndex>, v: HashSet<NodeIndex>)
    requires
        s.covers(g), cv(s, v, c), forall|x: NodeIndex| #![trigger o.has(x)] !o.has(x), added_by(s, g, d, b, o, v, st.i(), -1), s.inb(d, b, st.i()) ==> v.has(st), st.wf(),
    ensures cone_ok(s, g, d, b, st.i(), c),
{
    g.dlaws(); lemma_nmk(st);
    assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies s.inb(d, b, c[k].i()) && rd(g, d, st.i(), c[k].i()) by { assert(v.has(c[k])); assert(!o.has(c[k])); }
    assert forall|x: int, y: int| #![trigger isin(c, x), ne(g, d, x, y)] isin(c, x) && ne(g, d, x, y) && s.inb(d, b, y) implies isin(c, y) by {
        let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).i() == x;
        assert(v.has(c[k]) && !o.has(c[k]));
        assert(dcl(s, g, d, b, v, x));
        assert(v.has(NodeIndex::mk(y)));
        assert(ne(g, Direction::Outgoing, x, y) || ne(g, Direction::Outgoing, y, x));
        assert(g.hn(y));
        assert(s.has(y));
        assert(isin(c, NodeIndex::mk(y).i()));
    }
}
=== fn algorithms::dynamic DynamicTopoSort::cone gen=G:VDyn
--- spec
requires self.wf(), self.covers(*graph), start.wf(), self.has(start.i()),
ensures cone_ok(*self, *graph, dir, bound as int, start.i(), r@),
--- hint before dfs#0
let ghost v0 = visited;
--- hint end
proof { lemma_cone(*self, *graph, dir, bound as int, start, cone@, v0, visited); }
=== raw dyn_update
/// The items ascend strictly by position.
pub open spec fn rising(s: DynamicTopoSort, c: Seq<NodeIndex>) -> bool { forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() ==> s.ps(c[j].i()) < s.ps(c[k].i()) }
pub open spec fn keys_of(s: DynamicTopoSort, c: Seq<NodeIndex>, ks: Seq<usize>) -> bool { forall|k: int| #![trigger ks[k]] #![trigger c[k]] 0 <= k < ks.len() ==> ks[k] == s.ps(c[k].i()) }
proof fn lemma_pos(s: DynamicTopoSort, a: NodeIndex)
    requires s.wf(), a.wf(), s.has(a.i()),
    ensures 0 <= s.ps(a.i()) < s.order@.len(), s.order@[s.ps(a.i())] == a, s.node_to_pos@.dom().contains(a), s.node_to_pos@[a] == s.ps(a.i()),
{ lemma_nmk(a); assert(s.node_to_pos@.dom().contains(a)); }
proof fn lemma_keyed<G: VDyn>(s: DynamicTopoSort, g: G, d: Direction, b: int, st: int, o: Seq<NodeIndex>, ks: Seq<usize>, f: Seq<NodeIndex>)
    requires s.wf(), cone_ok(s, g, d, b, st, o), ks.len() == o.len(), keys_of(s, o, ks), keyed_of(o, ks, f),
    ensures cone_ok(s, g, d, b, st, f), rising(s, f), f.len() == o.len(),
{
    let p = choose|p: Seq<int>| #[trigger] permuted(o, f, p) && forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < o.len() ==> ks[p[j]] <= ks[p[k]];
    assert forall|y: int| #![trigger isin(o, y)] #![trigger isin(f, y)] isin(o, y) == isin(f, y) by {
        if isin(o, y) {
            let k = choose|k: int| 0 <= k < o.len() && (#[trigger] o[k]).i() == y;
            assert(p.contains(k));
            let j = choose|j: int| 0 <= j < p.len() && p[j] == k;
            assert(f[j] == o[k]);
        }
        if isin(f, y) {
            let k = choose|k: int| 0 <= k < f.len() && (#[trigger] f[k]).i() == y;
            assert(o[p[k]] == f[k]);
        }
    }
    assert forall|j: int, k: int| #![trigger f[j], f[k]] 0 <= j < k < f.len() implies f[j] != f[k] && s.ps(f[j].i()) < s.ps(f[k].i()) by {
        assert(f[j] == o[p[j]] && f[k] == o[p[k]] && p[j] != p[k]);
        assert(o[p[j]] != o[p[k]]) by { if p[j] < p[k] { assert(o[p[j]] != o[p[k]]); } else { assert(o[p[k]] != o[p[j]]); } }
        assert(ks[p[j]] <= ks[p[k]]);
        lemma_pos(s, o[p[j]]); lemma_pos(s, o[p[k]]);
    }
    assert forall|k: int| #![trigger f[k]] 0 <= k < f.len() implies f[k].wf() && s.has(f[k].i()) && s.inb(d, b, f[k].i()) && rd(g, d, st, f[k].i()) by { assert(f[k] == o[p[k]]); }
}
/// Values taken in ascending order from an ascending sequence.
proof fn lemma_choice(c: Seq<int>, p: Seq<int>, n: int)
    requires
        0 <= n <= c.len(),
        forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() ==> c[j] < c[k],
        forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < p.len() ==> p[j] < p[k],
        forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> p.contains(c[k]),
    ensures
        forall|k: int, j: int| #![trigger c[k], p[j]] 0 <= k < n && 0 <= j < p.len() && c[k] == p[j] ==> j >= k,
    decreases n,
{
    if n > 0 {
        lemma_choice(c, p, n - 1);
        assert forall|j: int| #![trigger p[j]] 0 <= j < p.len() && c[n - 1] == p[j] implies j >= n - 1 by {
            if n > 1 {
                assert(p.contains(c[n - 2]));
                let i = choose|i: int| 0 <= i < p.len() && p[i] == c[n - 2];
                assert(c[n - 2] < c[n - 1]);
                assert(i >= n - 2);
                if j <= i { if j < i { assert(p[j] < p[i]); } }
            }
        }
    }
}
proof fn lemma_choice_up(c: Seq<int>, p: Seq<int>, n: int)
    requires
        0 <= n <= c.len(),
        forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() ==> c[j] < c[k],
        forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < p.len() ==> p[j] < p[k],
        forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> p.contains(c[k]),
    ensures
        forall|k: int, j: int| #![trigger c[k], p[j]] n <= k < c.len() && 0 <= j < p.len() && c[k] == p[j] ==> j <= p.len() - c.len() + k,
    decreases c.len() - n,
{
    if n < c.len() {
        lemma_choice_up(c, p, n + 1);
        assert forall|j: int| #![trigger p[j]] 0 <= j < p.len() && c[n] == p[j] implies j <= p.len() - c.len() + n by {
            if n + 1 < c.len() {
                assert(p.contains(c[n + 1]));
                let i = choose|i: int| 0 <= i < p.len() && p[i] == c[n + 1];
                assert(c[n] < c[n + 1]);
                assert(i <= p.len() - c.len() + n + 1);
                if j >= i { if j > i { assert(p[i] < p[j]); } }
            }
        }
    }
}
pub open spec fn pin(p: Seq<usize>, n: int, i: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] p[j] == i }
pub open spec fn lin(l: Seq<NodeIndex>, n: int, x: NodeIndex) -> bool { exists|j: int| 0 <= j < n && #[trigger] l[j] == x }
/// The first n nodes of l were moved to the positions of p.
#[verifier::opaque]
pub open spec fn placed(o: DynamicTopoSort, s: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>, n: int) -> bool {
    &&& s.order@.len() == o.order@.len()
    &&& s.node_to_pos@.dom() =~= o.node_to_pos@.dom()
    &&& forall|j: int| #![trigger l[j]] #![trigger p[j]] 0 <= j < n ==> s.order@[p[j] as int] == l[j] && s.node_to_pos@[l[j]] == p[j]
    &&& forall|i: int| #![trigger s.order@[i]] 0 <= i < o.order@.len() && !pin(p, n, i) ==> s.order@[i] == o.order@[i]
    &&& forall|x: NodeIndex| #![trigger s.node_to_pos@[x]] !lin(l, n, x) ==> s.node_to_pos@[x] == o.node_to_pos@[x]
}
/// The nodes to move, and their positions.
#[verifier::opaque]
pub open spec fn moves(o: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>) -> bool {
    &&& l.len() == p.len()
    &&& forall|k: int| #![trigger l[k]] 0 <= k < l.len() ==> l[k].wf() && o.has(l[k].i())
    &&& forall|j: int, k: int| #![trigger l[j], l[k]] 0 <= j < k < l.len() ==> l[j] != l[k]
    &&& forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < p.len() ==> p[j] < p[k]
    &&& forall|k: int| #![trigger l[k]] 0 <= k < l.len() ==> pin(p, p.len() as int, o.ps(l[k].i()))
    &&& forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> p[k] < o.order@.len() && lin(l, l.len() as int, o.order@[p[k] as int])
}
proof fn lemma_moves(o: DynamicTopoSort, l: Seq<NodeIndex>, q: Seq<usize>, p: Seq<usize>)
    requires
        o.wf(), forall|k: int| #![trigger l[k]] 0 <= k < l.len() ==> l[k].wf() && o.has(l[k].i()),
        forall|j: int, k: int| #![trigger l[j], l[k]] 0 <= j < k < l.len() ==> l[j] != l[k],
        q.len() == l.len(), keys_of(o, l, q), sorted_of(q, p),
    ensures moves(o, l, p),
{
    reveal(moves);
    let w = choose|w: Seq<int>| #[trigger] permuted(q, p, w);
    assert forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < p.len() implies p[j] < p[k] by {
        assert(p[j] == q[w[j]] && p[k] == q[w[k]] && w[j] != w[k]);
        assert(l[w[j]] != l[w[k]]) by { if w[j] < w[k] { assert(l[w[j]] != l[w[k]]); } else { assert(l[w[k]] != l[w[j]]); } }
        lemma_pos(o, l[w[j]]); lemma_pos(o, l[w[k]]);
    }
    assert forall|k: int| #![trigger l[k]] 0 <= k < l.len() implies pin(p, p.len() as int, o.ps(l[k].i())) by {
        assert(w.contains(k));
        let j = choose|j: int| 0 <= j < w.len() && w[j] == k;
        assert(p[j] == q[k]);
    }
    assert forall|k: int| #![trigger p[k]] 0 <= k < p.len() implies p[k] < o.order@.len() && lin(l, l.len() as int, o.order@[p[k] as int]) by {
        assert(p[k] == q[w[k]]);
        lemma_pos(o, l[w[k]]);
        assert(o.order@[p[k] as int] == l[w[k]]);
    }
}
proof fn lemma_placed_start(o: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>)
    ensures placed(o, o, l, p, 0),
{ reveal(placed); }
proof fn lemma_placed(o: DynamicTopoSort, a: DynamicTopoSort, b: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>, n: int)
    requires
        o.wf(), moves(o, l, p), placed(o, a, l, p, n), 0 <= n < l.len(),
        b.order@ == a.order@.update(p[n] as int, l[n]), b.node_to_pos@ == a.node_to_pos@.insert(l[n], p[n]),
    ensures placed(o, b, l, p, n + 1),
{
    reveal(moves);
    reveal(placed);
    lemma_pos(o, l[n]);
    assert(p[n] < o.order@.len());
    assert forall|j: int| #![trigger l[j]] #![trigger p[j]] 0 <= j < n + 1 implies b.order@[p[j] as int] == l[j] && b.node_to_pos@[l[j]] == p[j] by {
        if j < n { assert(l[j] != l[n]); assert(p[j] < p[n]); }
    }
    assert forall|i: int| #![trigger b.order@[i]] 0 <= i < o.order@.len() && !pin(p, n + 1, i) implies b.order@[i] == o.order@[i] by {
        if p[n] == i { assert(pin(p, n + 1, i)); }
        if pin(p, n, i) { let j = choose|j: int| 0 <= j < n && #[trigger] p[j] == i; assert(pin(p, n + 1, i)); }
        assert(a.order@[i] == o.order@[i]);
    }
    assert forall|x: NodeIndex| #![trigger b.node_to_pos@[x]] !lin(l, n + 1, x) implies b.node_to_pos@[x] == o.node_to_pos@[x] by {
        if l[n] == x { assert(lin(l, n + 1, x)); }
        if lin(l, n, x) { let j = choose|j: int| 0 <= j < n && #[trigger] l[j] == x; assert(lin(l, n + 1, x)); }
        assert(a.node_to_pos@[x] == o.node_to_pos@[x]);
    }
}
proof fn lemma_placed_wf(o: DynamicTopoSort, s: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>)
    requires o.wf(), moves(o, l, p), placed(o, s, l, p, l.len() as int),
    ensures
        s.wf(), s.order@.len() == o.order@.len(), s.node_to_pos@.dom() =~= o.node_to_pos@.dom(),
        forall|k: int| #![trigger l[k]] 0 <= k < l.len() ==> s.ps(l[k].i()) == p[k],
        forall|x: int| #![trigger s.ps(x)] #![trigger o.ps(x)] o.has(x) && !isin(l, x) ==> s.ps(x) == o.ps(x),
{
    reveal(moves);
    reveal(placed);
    let n = l.len() as int;
    assert forall|k: int| #![trigger s.order@[k]] 0 <= k < s.order@.len() implies s.order@[k].wf() && s.node_to_pos@.dom().contains(s.order@[k]) && s.node_to_pos@[s.order@[k]] == k by {
        if pin(p, n, k) {
            let j = choose|j: int| 0 <= j < n && #[trigger] p[j] == k;
            lemma_pos(o, l[j]);
        } else {
            let x = o.order@[k];
            assert(s.order@[k] == x);
            if lin(l, n, x) { let j = choose|j: int| 0 <= j < n && #[trigger] l[j] == x; lemma_pos(o, l[j]); assert(pin(p, n, o.ps(l[j].i()))); }
            assert(s.node_to_pos@[x] == o.node_to_pos@[x]);
        }
    }
    assert forall|x: NodeIndex| #![trigger s.node_to_pos@.dom().contains(x)] s.node_to_pos@.dom().contains(x) implies x.wf() && s.node_to_pos@[x] < s.order@.len() && s.order@[s.node_to_pos@[x] as int] == x by {
        assert(o.node_to_pos@.dom().contains(x));
        if lin(l, n, x) {
            let j = choose|j: int| 0 <= j < n && #[trigger] l[j] == x;
            assert(p[j] < o.order@.len());
        } else {
            assert(s.node_to_pos@[x] == o.node_to_pos@[x]);
            let i = o.node_to_pos@[x] as int;
            if pin(p, n, i) { let j = choose|j: int| 0 <= j < n && #[trigger] p[j] == i; assert(lin(l, l.len() as int, o.order@[p[j] as int])); }
            assert(s.order@[i] == o.order@[i]);
        }
    }
    assert forall|k: int| #![trigger l[k]] 0 <= k < l.len() implies s.ps(l[k].i()) == p[k] by { lemma_nmk(l[k]); }
    assert forall|x: int| #![trigger s.ps(x)] #![trigger o.ps(x)] o.has(x) && !isin(l, x) implies s.ps(x) == o.ps(x) by {
        let y = NodeIndex::mk(x);
        if lin(l, n, y) { let j = choose|j: int| 0 <= j < n && #[trigger] l[j] == y; assert(isin(l, x)); }
        assert(s.node_to_pos@[y] == o.node_to_pos@[y]);
    }
}
/// What the two cones say about an edge.
#[verifier::opaque]
pub open spec fn cones<G: VView>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>) -> bool {
    &&& o.fits(g, f.i(), t.i()) && f.wf() && t.wf() && o.has(f.i()) && o.has(t.i()) && !reach(ed(g), t.i(), f.i()) && o.ps(t.i()) <= o.ps(f.i())
    &&& cone_ok(o, g, Direction::Outgoing, o.ps(f.i()), t.i(), cf) && rising(o, cf)
    &&& cone_ok(o, g, Direction::Incoming, o.ps(t.i()), f.i(), cb) && rising(o, cb)
}
proof fn lemma_cones<G: VDyn>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>)
    requires cones(o, g, f, t, cb, cf),
    ensures
        o.fits(g, f.i(), t.i()), f.wf(), t.wf(), o.has(f.i()), o.has(t.i()), rising(o, cb), rising(o, cf),
        o.ps(t.i()) < o.ps(f.i()), isin(cb, f.i()), isin(cf, t.i()),
        forall|k: int| #![trigger cf[k]] 0 <= k < cf.len() ==> o.ps(t.i()) <= o.ps(cf[k].i()) < o.ps(f.i()),
        forall|k: int| #![trigger cb[k]] 0 <= k < cb.len() ==> o.ps(t.i()) < o.ps(cb[k].i()) <= o.ps(f.i()),
        forall|j: int, k: int| #![trigger cb[j], cf[k]] 0 <= j < cb.len() && 0 <= k < cf.len() ==> cb[j] != cf[k],
        forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) ==> !(isin(cf, x) && isin(cb, y)),
        forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) && isin(cf, x) && !isin(cf, y) && !isin(cb, y) ==> o.ps(y) > o.ps(f.i()),
        forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) && isin(cb, y) && !isin(cf, x) && !isin(cb, x) ==> o.ps(x) < o.ps(t.i()),
{
    reveal(cones);
    lemma_reach(ed(g)); g.dlaws();
    let e = ed(g); let fi = f.i(); let ti = t.i();
    assert(reach(e, ti, ti));
    lemma_pos(o, f); lemma_pos(o, t);
    assert(fi != ti);
    assert(f != t);
    assert forall|k: int| #![trigger cf[k]] 0 <= k < cf.len() implies o.ps(ti) <= o.ps(cf[k].i()) < o.ps(fi) by {
        assert(rd(g, Direction::Outgoing, ti, cf[k].i()));
        let w = choose|w: nat| #[trigger] walk(e, ti, cf[k].i(), w);
        lemma_dn(o, g, fi, ti, ti, cf[k].i(), w);
    }
    assert forall|k: int| #![trigger cb[k]] 0 <= k < cb.len() implies o.ps(ti) < o.ps(cb[k].i()) <= o.ps(fi) by {
        assert(rd(g, Direction::Incoming, fi, cb[k].i()));
        let w = choose|w: nat| #[trigger] walk(e, cb[k].i(), fi, w);
        lemma_up(o, g, fi, ti, cb[k].i(), w);
    }
    assert forall|j: int, k: int| #![trigger cb[j], cf[k]] 0 <= j < cb.len() && 0 <= k < cf.len() implies cb[j] != cf[k] by {
        if cb[j] == cf[k] {
            assert(rd(g, Direction::Outgoing, ti, cf[k].i()) && rd(g, Direction::Incoming, fi, cb[j].i()));
            assert(reach(e, ti, cf[k].i()) && reach(e, cf[k].i(), fi));
        }
    }
    assert forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) implies !(isin(cf, x) && isin(cb, y)) by {
        if isin(cf, x) && isin(cb, y) {
            let k = choose|k: int| 0 <= k < cf.len() && (#[trigger] cf[k]).i() == x;
            let j = choose|j: int| 0 <= j < cb.len() && (#[trigger] cb[j]).i() == y;
            assert(rd(g, Direction::Outgoing, ti, cf[k].i()) && rd(g, Direction::Incoming, fi, cb[j].i()));
            assert(e(x, y));
            assert(reach(e, ti, x) && reach(e, y, fi));
            assert(reach(e, ti, y));
        }
    }
    assert forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) && isin(cf, x) && !isin(cf, y) && !isin(cb, y) implies o.ps(y) > o.ps(fi) by {
        assert(!o.inb(Direction::Outgoing, o.ps(fi), y));
        assert(y != fi);
        assert(o.has(y));
        lemma_nmk(NodeIndex::mk(fi));
        assert(o.node_to_pos@.dom().contains(NodeIndex::mk(y)));
        if o.ps(y) == o.ps(fi) { assert(o.order@[o.ps(y)] == NodeIndex::mk(y)); assert(o.order@[o.ps(fi)] == f); }
    }
    assert forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) && isin(cb, y) && !isin(cf, x) && !isin(cb, x) implies o.ps(x) < o.ps(ti) by {
        assert(ne(g, Direction::Incoming, y, x));
        assert(!o.inb(Direction::Incoming, o.ps(ti), x));
        assert(x != ti);
        assert(o.has(x));
        assert(o.node_to_pos@.dom().contains(NodeIndex::mk(x)));
        if o.ps(x) == o.ps(ti) { assert(o.order@[o.ps(x)] == NodeIndex::mk(x)); assert(o.order@[o.ps(ti)] == t); }
    }
}
/// Every position of p lies between t and f; the nodes of cb move down and those of cf move up.
proof fn lemma_shift(o: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, lo: int, hi: int)
    requires
        o.wf(), moves(o, l, p), l == cb + cf, rising(o, cb), rising(o, cf),
        forall|k: int| #![trigger l[k]] 0 <= k < l.len() ==> lo <= o.ps(l[k].i()) <= hi,
    ensures
        p.len() == cb.len() + cf.len(), forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < p.len() ==> p[j] < p[k],
        forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> lo <= p[k] <= hi,
        forall|k: int| #![trigger cb[k]] 0 <= k < cb.len() ==> p[k] <= o.ps(cb[k].i()),
        forall|k: int| #![trigger cf[k]] 0 <= k < cf.len() ==> p[cb.len() + k] >= o.ps(cf[k].i()),
{
    reveal(moves);
    let q = Seq::new(p.len(), |k: int| p[k] as int);
    let b = Seq::new(cb.len(), |k: int| o.ps(cb[k].i()));
    let f = Seq::new(cf.len(), |k: int| o.ps(cf[k].i()));
    assert forall|k: int| #![trigger p[k]] 0 <= k < p.len() implies lo <= p[k] <= hi by {
        let x = o.order@[p[k] as int];
        assert(lin(l, l.len() as int, x));
        let j = choose|j: int| 0 <= j < l.len() && #[trigger] l[j] == x;
        lemma_pos(o, l[j]);
        assert(o.node_to_pos@[x] == p[k]);
    }
    assert forall|j: int, k: int| #![trigger q[j], q[k]] 0 <= j < k < q.len() implies q[j] < q[k] by { assert(p[j] < p[k]); }
    assert forall|j: int, k: int| #![trigger b[j], b[k]] 0 <= j < k < b.len() implies b[j] < b[k] by { assert(o.ps(cb[j].i()) < o.ps(cb[k].i())); }
    assert forall|j: int, k: int| #![trigger f[j], f[k]] 0 <= j < k < f.len() implies f[j] < f[k] by { assert(o.ps(cf[j].i()) < o.ps(cf[k].i())); }
    assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies q.contains(b[k]) by {
        assert(l[k] == cb[k]);
        let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == o.ps(l[k].i());
        assert(q[j] == b[k]);
    }
    assert forall|k: int| #![trigger f[k]] 0 <= k < f.len() implies q.contains(f[k]) by {
        assert(l[cb.len() + k] == cf[k]);
        let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == o.ps(l[cb.len() + k].i());
        assert(q[j] == f[k]);
    }
    lemma_choice(b, q, b.len() as int);
    lemma_choice_up(f, q, 0);
    assert forall|k: int| #![trigger cb[k]] 0 <= k < cb.len() implies p[k] <= o.ps(cb[k].i()) by {
        assert(q.contains(b[k]));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == b[k];
        assert(j >= k);
        if j > k { assert(q[k] < q[j]); }
        assert(q[k] == p[k]);
    }
    assert forall|k: int| #![trigger cf[k]] 0 <= k < cf.len() implies p[cb.len() + k] >= o.ps(cf[k].i()) by {
        assert(q.contains(f[k]));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == f[k];
        assert(j <= q.len() - f.len() + k);
        let m = cb.len() + k;
        if j < m { assert(q[j] < q[m]); }
        assert(q[m] == p[m]);
    }
}
pub open spec fn idx(c: Seq<NodeIndex>, x: int) -> int { choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).i() == x }
proof fn lemma_spot_in(c: Seq<NodeIndex>, x: int)
    requires isin(c, x),
    ensures 0 <= idx(c, x) < c.len(), c[idx(c, x)].i() == x,
{}
/// Where node x is after the move.
proof fn lemma_spot(o: DynamicTopoSort, s: DynamicTopoSort, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>, p: Seq<usize>, x: int)
    requires
        o.wf(), o.has(x), l == cb + cf, moves(o, l, p), placed(o, s, l, p, l.len() as int),
    ensures
        isin(cb, x) ==> 0 <= idx(cb, x) < cb.len() && cb[idx(cb, x)].i() == x && s.ps(x) == p[idx(cb, x)],
        isin(cf, x) ==> 0 <= idx(cf, x) < cf.len() && cf[idx(cf, x)].i() == x && s.ps(x) == p[cb.len() + idx(cf, x)],
        !isin(cb, x) && !isin(cf, x) ==> s.ps(x) == o.ps(x),
{
    lemma_placed_wf(o, s, l, p);
    if isin(cb, x) { let i = idx(cb, x); assert(l[i] == cb[i]); }
    if isin(cf, x) { let i = idx(cf, x); assert(l[cb.len() + i] == cf[i]); }
    if isin(l, x) {
        let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k]).i() == x;
        if k < cb.len() { assert(cb[k] == l[k]); assert(isin(cb, x)); } else { assert(cf[k - cb.len()] == l[k]); assert(isin(cf, x)); }
    }
}
proof fn lemma_between<G: VDyn>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>, p: Seq<usize>)
    requires cones(o, g, f, t, cb, cf), l == cb + cf, moves(o, l, p),
    ensures
        p.len() == cb.len() + cf.len(), forall|j: int, k: int| #![trigger p[j], p[k]] 0 <= j < k < p.len() ==> p[j] < p[k],
        forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> o.ps(t.i()) <= p[k] <= o.ps(f.i()),
        forall|k: int| #![trigger cb[k]] 0 <= k < cb.len() ==> p[k] <= o.ps(cb[k].i()),
        forall|k: int| #![trigger cf[k]] 0 <= k < cf.len() ==> p[cb.len() + k] >= o.ps(cf[k].i()),
{
    lemma_cones(o, g, f, t, cb, cf);
    let n = cb.len() as int;
    let (lo, hi) = (o.ps(t.i()), o.ps(f.i()));
    assert forall|k: int| #![trigger l[k]] 0 <= k < l.len() implies lo <= o.ps(l[k].i()) <= hi by { if k < n { assert(l[k] == cb[k]); } else { assert(l[k] == cf[k - n]); } }
    lemma_shift(o, l, p, cb, cf, lo, hi);
}
proof fn lemma_edge<G: VDyn>(o: DynamicTopoSort, s: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>, p: Seq<usize>, x: int, y: int)
    requires cones(o, g, f, t, cb, cf), l == cb + cf, moves(o, l, p), placed(o, s, l, p, l.len() as int), ne(g, Direction::Outgoing, x, y),
    ensures s.ps(x) < s.ps(y),
{
    lemma_cones(o, g, f, t, cb, cf);
    lemma_between(o, g, f, t, cb, cf, l, p);
    g.dlaws();
    assert(g.hn(x) && g.hn(y));
    assert(o.has(x) && o.has(y));
    lemma_spot(o, s, cb, cf, l, p, x);
    lemma_spot(o, s, cb, cf, l, p, y);
    if isin(cb, x) && isin(cb, y) { lemma_edge_b(o, g, f, t, cb, cf, l, p, x, y); assert(!isin(cf, x) || o.ps(x) < o.ps(f.i())); }
    else if isin(cf, x) && isin(cf, y) { lemma_edge_f(o, g, f, t, cb, cf, l, p, x, y); }
    else if isin(cb, x) && isin(cf, y) { assert(p[idx(cb, x)] < p[cb.len() + idx(cf, y)]); }
    else { lemma_edge_o(o, s, g, f, t, cb, cf, p, x, y, o.ps(t.i()), o.ps(f.i())); }
}
proof fn lemma_edge_b<G: VDyn>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>, p: Seq<usize>, x: int, y: int)
    requires cones(o, g, f, t, cb, cf), l == cb + cf, moves(o, l, p), ne(g, Direction::Outgoing, x, y), isin(cb, x), isin(cb, y),
    ensures p[idx(cb, x)] < p[idx(cb, y)],
{
    reveal(cones); reveal(moves); lemma_spot_in(cb, x); lemma_spot_in(cb, y); lemma_cones(o, g, f, t, cb, cf);
    let i = idx(cb, x); let j = idx(cb, y);
    if x == f.i() && y == t.i() { assert(!o.inb(Direction::Incoming, o.ps(t.i()), cb[j].i())); }
    assert(o.ps(x) < o.ps(y));
    if i > j { assert(o.ps(cb[j].i()) < o.ps(cb[i].i())); }
    assert(i < j);
    assert(p[i] < p[j]);
}
proof fn lemma_edge_f<G: VDyn>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>, p: Seq<usize>, x: int, y: int)
    requires cones(o, g, f, t, cb, cf), l == cb + cf, moves(o, l, p), ne(g, Direction::Outgoing, x, y), isin(cf, x), isin(cf, y),
    ensures p[cb.len() + idx(cf, x)] < p[cb.len() + idx(cf, y)],
{
    reveal(cones); reveal(moves); lemma_spot_in(cf, x); lemma_spot_in(cf, y); lemma_cones(o, g, f, t, cb, cf);
    let i = idx(cf, x); let j = idx(cf, y);
    if x == f.i() && y == t.i() { assert(!o.inb(Direction::Outgoing, o.ps(f.i()), cf[i].i())); }
    assert(o.ps(x) < o.ps(y));
    if i > j { assert(o.ps(cf[j].i()) < o.ps(cf[i].i())); }
    assert(i < j);
    assert(p[cb.len() + i] < p[cb.len() + j]);
}
proof fn lemma_edge_o<G: VDyn>(o: DynamicTopoSort, s: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, p: Seq<usize>, x: int, y: int, lo: int, hi: int)
    requires
        o.fits(g, f.i(), t.i()), ne(g, Direction::Outgoing, x, y), lo == o.ps(t.i()), hi == o.ps(f.i()), isin(cb, f.i()), isin(cf, t.i()),
        !isin(cb, x) || !isin(cb, y), !isin(cf, x) || !isin(cf, y), !isin(cb, x) || !isin(cf, y), !isin(cf, x) || !isin(cb, y),
        isin(cf, x) && !isin(cf, y) && !isin(cb, y) ==> o.ps(y) > hi,
        isin(cb, y) && !isin(cf, x) && !isin(cb, x) ==> o.ps(x) < lo,
        forall|k: int| #![trigger p[k]] 0 <= k < p.len() ==> lo <= p[k] <= hi,
        forall|k: int| #![trigger cb[k]] 0 <= k < cb.len() ==> p[k] <= o.ps(cb[k].i()),
        forall|k: int| #![trigger cf[k]] 0 <= k < cf.len() ==> p[cb.len() + k] >= o.ps(cf[k].i()),
        p.len() == cb.len() + cf.len(),
        isin(cb, x) ==> 0 <= idx(cb, x) < cb.len() && cb[idx(cb, x)].i() == x && s.ps(x) == p[idx(cb, x)],
        isin(cf, x) ==> 0 <= idx(cf, x) < cf.len() && cf[idx(cf, x)].i() == x && s.ps(x) == p[cb.len() + idx(cf, x)],
        !isin(cb, x) && !isin(cf, x) ==> s.ps(x) == o.ps(x),
        isin(cb, y) ==> 0 <= idx(cb, y) < cb.len() && cb[idx(cb, y)].i() == y && s.ps(y) == p[idx(cb, y)],
        isin(cf, y) ==> 0 <= idx(cf, y) < cf.len() && cf[idx(cf, y)].i() == y && s.ps(y) == p[cb.len() + idx(cf, y)],
        !isin(cb, y) && !isin(cf, y) ==> s.ps(y) == o.ps(y),
    ensures s.ps(x) < s.ps(y),
{
    assert(!(x == f.i() && y == t.i()));
    assert(o.ps(x) < o.ps(y));
}
/// The repaired order fits every edge.
proof fn lemma_update<G: VDyn>(o: DynamicTopoSort, s: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>, p: Seq<usize>)
    requires cones(o, g, f, t, cb, cf), l == cb + cf, moves(o, l, p), placed(o, s, l, p, l.len() as int),
    ensures s.fits(g, -1, -1), s.ps(f.i()) < s.ps(t.i()), s.node_to_pos@.dom() =~= o.node_to_pos@.dom(), s.order@.len() == o.order@.len(),
{
    lemma_cones(o, g, f, t, cb, cf);
    lemma_between(o, g, f, t, cb, cf, l, p);
    lemma_placed_wf(o, s, l, p);
    assert forall|x: int, y: int| #![trigger ne(g, Direction::Outgoing, x, y)] ne(g, Direction::Outgoing, x, y) implies s.ps(x) < s.ps(y) by { lemma_edge(o, s, g, f, t, cb, cf, l, p, x, y); }
    assert forall|x: int| #![trigger g.hn(x)] g.hn(x) implies s.has(x) by { assert(o.has(x)); assert(s.node_to_pos@.dom().contains(NodeIndex::mk(x))); }
    lemma_cones(o, g, f, t, cb, cf);
    lemma_spot(o, s, cb, cf, l, p, f.i());
    lemma_spot(o, s, cb, cf, l, p, t.i());
    let i = idx(cb, f.i());
    let j = idx(cf, t.i());
    assert(i < cb.len() + j);
    assert(p[i] < p[cb.len() + j]);
}
proof fn lemma_affected<G: VDyn>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>, l: Seq<NodeIndex>)
    requires cones(o, g, f, t, cb, cf), l == cb + cf,
    ensures
        forall|k: int| #![trigger l[k]] 0 <= k < l.len() ==> l[k].wf() && o.has(l[k].i()),
        forall|j: int, k: int| #![trigger l[j], l[k]] 0 <= j < k < l.len() ==> l[j] != l[k],
{
    lemma_cones(o, g, f, t, cb, cf);
    assert forall|k: int| #![trigger l[k]] 0 <= k < l.len() implies l[k].wf() && o.has(l[k].i()) by { reveal(cones); if k < cb.len() { assert(l[k] == cb[k]); } else { assert(l[k] == cf[k - cb.len()]); } }
    assert forall|j: int, k: int| #![trigger l[j], l[k]] 0 <= j < k < l.len() implies l[j] != l[k] by {
        reveal(cones);
        if k < cb.len() { assert(cb[j] != cb[k]); } else if j < cb.len() { assert(cb[j] != cf[k - cb.len()]); } else { assert(cf[j - cb.len()] != cf[k - cb.len()]); }
    }
}
proof fn lemma_sorted_keys<G: VDyn>(o: DynamicTopoSort, g: G, f: NodeIndex, t: NodeIndex, cb0: Seq<NodeIndex>, cf0: Seq<NodeIndex>, kb: Seq<usize>, kf: Seq<usize>, cb: Seq<NodeIndex>, cf: Seq<NodeIndex>)
    requires
        o.fits(g, f.i(), t.i()), f.wf(), t.wf(), o.has(f.i()), o.has(t.i()), !reach(ed(g), t.i(), f.i()), o.ps(t.i()) <= o.ps(f.i()),
        cone_ok(o, g, Direction::Outgoing, o.ps(f.i()), t.i(), cf0), cone_ok(o, g, Direction::Incoming, o.ps(t.i()), f.i(), cb0),
        kf.len() == cf0.len(), kb.len() == cb0.len(), keys_of(o, cf0, kf), keys_of(o, cb0, kb), keyed_of(cf0, kf, cf), keyed_of(cb0, kb, cb),
    ensures cones(o, g, f, t, cb, cf),
{
    lemma_keyed(o, g, Direction::Outgoing, o.ps(f.i()), t.i(), cf0, kf, cf);
    lemma_keyed(o, g, Direction::Incoming, o.ps(t.i()), f.i(), cb0, kb, cb);
    reveal(cones);
}
proof fn lemma_move(o: DynamicTopoSort, s: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>, n: int, j: int)
    requires moves(o, l, p), placed(o, s, l, p, n), 0 <= j < p.len() || 0 <= j < l.len(),
    ensures p.len() == l.len(), p[j] < s.order@.len(), s.order@.len() == o.order@.len(),
{ reveal(moves); reveal(placed); assert(p[j] < o.order@.len()); }
proof fn lemma_moves_len(o: DynamicTopoSort, l: Seq<NodeIndex>, p: Seq<usize>)
    requires moves(o, l, p),
    ensures p.len() == l.len(),
{ reveal(moves); }
=== fn algorithms::dynamic DynamicTopoSort::update_order gen=G:VDyn eager elem=NodeIndex
--- spec
requires
    old(self).fits(*graph, from.i(), to.i()), from.wf(), to.wf(), old(self).has(from.i()), old(self).has(to.i()), !reach(ed(*graph), to.i(), from.i()),
ensures
    final(self).fits(*graph, -1, -1), final(self).ps(from.i()) < final(self).ps(to.i()),
    final(self).node_to_pos@.dom() =~= old(self).node_to_pos@.dom(), final(self).order@.len() == old(self).order@.len(),
--- hint start
proof { lemma_nmk(from); lemma_nmk(to); lemma_pos(*self, from); lemma_pos(*self, to); }
--- hint after let:delta_b#0
let ghost cf0 = delta_f@;
let ghost cb0 = delta_b@;
let ghost o = *self;
let ghost mut ksf = Seq::<usize>::empty();
let ghost mut ksb = Seq::<usize>::empty();
--- hint before v_sort_keyed#0
proof { ksf = __keys@; }
--- hint before v_sort_keyed#1
proof { ksb = __keys@; }
--- hint before loop0
proof { assert forall|k: int| #![trigger __all0[k]] 0 <= k < __all0.len() implies *__all0[k] == cf0[k] by { assert(drf(__all0)[k] == *__all0[k]); } }
--- loop 0
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(), $all.len() == cf0.len(),
    forall|k: int| #![trigger $all[k]] 0 <= k < $all.len() ==> *$all[k] == cf0[k],
    __keys@.len() == $all.len() - $it.rest().len(), keys_of(*self, cf0, __keys@),
    *self == o, delta_f@ == cf0, delta_b@ == cb0,
--- hint loop0.start
proof { let j = __all0.len() - __it0.rest().len() - 1; assert(*__all0[j] == n); assert(cf0[j] == n); lemma_pos(*self, *n); }
--- hint before loop1
proof { assert forall|k: int| #![trigger __all1[k]] 0 <= k < __all1.len() implies *__all1[k] == cb0[k] by { assert(drf(__all1)[k] == *__all1[k]); } }
--- loop 1
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(), $all.len() == cb0.len(),
    forall|k: int| #![trigger $all[k]] 0 <= k < $all.len() ==> *$all[k] == cb0[k],
    __keys@.len() == $all.len() - $it.rest().len(), keys_of(*self, cb0, __keys@),
    *self == o, delta_b@ == cb0,
--- hint loop1.start
proof { let j = __all1.len() - __it1.rest().len() - 1; assert(*__all1[j] == n); assert(cb0[j] == n); lemma_pos(*self, *n); }
--- hint before let:affected#0
let ghost (cf, cb) = (delta_f@, delta_b@);
proof {
    lemma_sorted_keys(o, *graph, from, to, cb0, cf0, ksb, ksf, cb, cf);
}
let ghost l = cb + cf;
proof { lemma_affected(o, *graph, from, to, cb, cf, l); }
--- loop 2
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(), $all == cb,
    __out.rest() =~= cb.take($all.len() - $it.rest().len()),
    *self == o, delta_f@ == cf,
--- loop 3
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(), $all == cf,
    __out.rest() =~= cb + cf.take($all.len() - $it.rest().len()),
    *self == o,
--- hint after let:affected#0
proof {
    assert(affected@ =~= l);
}
--- hint before loop4
proof { assert forall|k: int| #![trigger __all4[k]] 0 <= k < __all4.len() implies *__all4[k] == l[k] by { assert(drf(__all4)[k] == *__all4[k]); } }
let ghost v0: VList<usize> = __out;
--- loop 4
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(), $all.len() == l.len(),
    forall|k: int| #![trigger $all[k]] 0 <= k < $all.len() ==> *$all[k] == l[k],
    __out.rest().len() == $all.len() - $it.rest().len(), keys_of(*self, l, __out.rest()),
    *self == o, affected@ == l,
--- hint loop4.start
proof { let j = __all4.len() - __it4.rest().len() - 1; assert(*__all4[j] == __e2); assert(l[j] == __e2); lemma_pos(*self, *__e2); }
--- hint after let:positions#0
let ghost q = positions@;
--- hint before loop5
let ghost p = positions@;
proof { lemma_moves(o, l, q, p); lemma_placed_start(o, l, p); }
--- loop 5
invariant
    $it.ok(), $it.rest() =~= $all.skip($all.len() - $it.rest().len()), $it.rest().len() <= $all.len(), $all == seq_zip(l, p),
    placed(o, *self, l, p, $all.len() - $it.rest().len()),
--- hint loop5.start
let ghost b = *self;
let ghost j = __all5.len() - __it5.rest().len() - 1;
proof { assert(__all5[j] == (w, new_pos)); assert(p[j] == new_pos && l[j] == w); lemma_move(o, *self, l, p, j, j); }
--- hint loop5.end
proof { lemma_placed(o, b, *self, l, p, j); }
--- hint loop5.done
proof { lemma_moves_len(o, l, p); lemma_update(o, *self, *graph, from, to, cb, cf, l, p); }
=== fn algorithms::dynamic DynamicTopoSort::connect_nodes gen=G:VDyn
--- spec
requires old(self).fits(*graph, from.i(), to.i()), from.wf(), to.wf(),
ensures
    r is Ok <==> old(self).has(from.i()) && old(self).has(to.i()) && !reach(ed(*graph), to.i(), from.i()),
    r is Err ==> *final(self) == *old(self),
    r matches Err(e) ==> match e {
        DynamicTopoSortError::InvalidNode { node } => (node == from || node == to) && !old(self).has(node.i()),
        DynamicTopoSortError::WouldCreateCycle { from: a, to: b } => a == from && b == to && reach(ed(*graph), to.i(), from.i()) },
    r is Ok ==> final(self).fits(*graph, -1, -1) && final(self).ps(from.i()) < final(self).ps(to.i()),
    final(self).node_to_pos@.dom() =~= old(self).node_to_pos@.dom(), final(self).order@.len() == old(self).order@.len(),
--- hint start
proof { lemma_nmk(from); lemma_nmk(to); }
