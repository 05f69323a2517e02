=== default P=A04
=== type algorithms::lca LCA derive=none
=== type algorithms::lca DFSState derive=Clone,Copy
=== raw lca_env
impl VVal for usize { fn v_clone(&self) -> (r: usize) { *self } }
impl VDefault for usize {
    open spec fn dflt() -> usize { 0 }
    fn vdefault() -> (r: usize) { 0 }
}
impl VValD for usize {}
/// `Clone` of a vector of indices gives an equal vector, and the default vector is empty (assumed).
impl VVal for Vec<NodeIndex> {
    #[verifier::external_body]
    fn v_clone(&self) -> (r: Vec<NodeIndex>) { unimplemented!() }
}
impl VDefault for Vec<NodeIndex> {
    uninterp spec fn dflt() -> Vec<NodeIndex>;
    #[verifier::external_body]
    fn vdefault() -> (r: Vec<NodeIndex>) { unimplemented!() }
}
impl VValD for Vec<NodeIndex> {}
pub axiom fn axiom_vec_dflt()
    ensures <Vec<NodeIndex> as VDefault>::dflt()@.len() == 0;
/// A graph whose nodes are listed once each.
pub trait VNodes: VView {
    proof fn nlaws(self)
        requires self.gok(),
        ensures
            forall|j: int, k: int| #![trigger self.sn()[j], self.sn()[k]] 0 <= j < k < self.sn().len() ==> self.sn()[j].i() != self.sn()[k].i(),
            forall|n: int| #![trigger self.hn(n)] self.hn(n) ==> exists|k: int| 0 <= k < self.sn().len() && (#[trigger] self.sn()[k]).i() == n;
    fn node_capacity(&self) -> (r: usize) requires self.gok();
}
impl VNodes for PortGraph {
    proof fn nlaws(self) {
        assert(self.node_meta@.len() <= max_ix() + 1) by { reveal(nodes_ok); }
        theorem_nodes(self.node_meta@, 0, self.node_meta@.len() as int);
        assert forall|n: int| #![trigger self.hn(n)] self.hn(n) implies exists|k: int| 0 <= k < self.sn().len() && (#[trigger] self.sn()[k]).i() == n by {
            assert(live(self.node_meta@, n));
            lemma_node(self, n);
            let s = self.sn();
            assert(s.contains(NodeIndex::mk(n)));
            let k = choose|k: int| 0 <= k < s.len() && s[k] == NodeIndex::mk(n);
            assert(s[k].i() == n);
        }
    }
    fn node_capacity(&self) -> (r: usize) { self.node_capacity() }
}
impl Children<'_> {
    pub open spec fn kids_(self, p: int, lo: int, hi: int) -> Seq<NodeIndex> { Seq::new((hi - lo) as nat, |k: int| NodeIndex::mk(self.layout.kids(p)[lo + k])) }
    pub open spec fn left(self, s: Seq<NodeIndex>) -> bool { exists|p: int, lo: int, hi: int| #[trigger] self.shows(p, lo, hi) && s == self.kids_(p, lo, hi) }
}
proof fn lemma_left(c: Children<'_>, p: int, lo: int, hi: int)
    requires c.shows(p, lo, hi),
    ensures c.rest() == c.kids_(p, lo, hi),
{
    assert(c.left(c.kids_(p, lo, hi)));
    let s = c.rest();
    assert(c.left(s));
    let (q, a, b) = choose|q: int, a: int, b: int| #[trigger] c.shows(q, a, b) && s == c.kids_(q, a, b);
    let h = *c.layout;
    let t = h.tree();
    lemma_kids(h, t);
    if lo < hi {
        assert(h.wf_at(t, p, lo));
        assert(h.wf_at(t, q, a));
        assert(p == q && lo == a);
    }
    assert(s =~= c.kids_(p, lo, hi));
}
impl VIter for Children<'_> {
    type Item = NodeIndex;
    open spec fn rest(self) -> Seq<NodeIndex> { choose|s: Seq<NodeIndex>| self.left(s) }
    open spec fn ok(self) -> bool { exists|p: int, lo: int, hi: int| #[trigger] self.shows(p, lo, hi) }
    fn v_next(&mut self) -> (r: Option<NodeIndex>) {
        let ghost c = *self;
        let ghost (p, lo, hi) = choose|p: int, lo: int, hi: int| #[trigger] self.shows(p, lo, hi);
        let r = self.next();
        proof {
            lemma_left(c, p, lo, hi);
            if lo < hi {
                lemma_kids(*c.layout, c.layout.tree());
                assert(c.layout.wf_at(c.layout.tree(), p, lo));
                lemma_left(*self, p, lo + 1, hi);
                assert(self.rest() =~= c.rest().skip(1));
                assert(NodeIndex::mk(r.unwrap().i()) == r.unwrap());
            } else {
                lemma_left(*self, p, lo, hi);
            }
        }
        r
    }
}
impl<'a> VIntoIter for Children<'a> {
    type It = Children<'a>;
    open spec fn iok(self) -> bool { exists|p: int, lo: int, hi: int| #[trigger] self.shows(p, lo, hi) }
    open spec fn irest(self) -> Seq<NodeIndex> { self.rest() }
    open spec fn ieq(self, r: Children<'a>) -> bool { r == self }
    fn v_into_iter(self) -> (r: Children<'a>) { self }
}
=== raw lca_ancestors
use vstd::arithmetic::power2::*;
pub proof fn lemma_anc_add(h: Hierarchy, x: int, j: nat, k: nat)
    requires h.anc(x, j) >= 0,
    ensures h.anc(x, j + k) == h.anc(h.anc(x, j), k),
    decreases j,
{
    if j > 0 { lemma_anc_add(h, h.par(x), (j - 1) as nat, k); assert((j + k - 1) as nat == (j - 1) as nat + k); }
}
pub proof fn lemma_anc_none(h: Hierarchy, x: int, j: nat, k: nat)
    requires x >= 0, h.anc(x, j) < 0, j <= k,
    ensures h.anc(x, k) < 0,
    decreases j,
{
    if h.par(x) >= 0 { lemma_anc_none(h, h.par(x), (j - 1) as nat, (k - 1) as nat); }
}
pub proof fn lemma_trans(h: Hierarchy, x: int, y: int, z: int)
    requires h.under(x, y), h.under(y, z), y >= 0,
    ensures h.under(x, z),
{
    let j = choose|j: nat| #[trigger] h.anc(x, j) == y;
    let k = choose|k: nat| #[trigger] h.anc(y, k) == z;
    lemma_anc_add(h, x, j, k);
    assert(h.anc(x, j + k) == z);
}
/// The ancestors of a node are a chain.
pub proof fn lemma_chain(h: Hierarchy, a: int, u: int, d: int)
    requires h.under(a, u), h.under(a, d), u >= 0, d >= 0,
    ensures h.under(u, d) || h.under(d, u),
{
    let j = choose|j: nat| #[trigger] h.anc(a, j) == u;
    let k = choose|k: nat| #[trigger] h.anc(a, k) == d;
    if j <= k { lemma_anc_add(h, a, j, (k - j) as nat); assert(j + (k - j) as nat == k); assert(h.anc(u, (k - j) as nat) == d); }
    else { lemma_anc_add(h, a, k, (j - k) as nat); assert(k + (j - k) as nat == j); assert(h.anc(d, (j - k) as nat) == u); }
}
pub proof fn lemma_rk(h: Hierarchy, x: int, k: nat)
    requires h.wf(), h.anc(x, k) >= 0,
    ensures (h.tree().rk)(h.anc(x, k)) + k <= (h.tree().rk)(x), (h.tree().rk)(h.anc(x, k)) >= 0,
    decreases k,
{
    assert(h.wf_up(h.tree(), x));
    if k > 0 { lemma_rk(h, h.par(x), (k - 1) as nat); }
}
pub proof fn lemma_anti(h: Hierarchy, x: int, y: int)
    requires h.wf(), h.under(x, y), h.under(y, x), x >= 0, y >= 0,
    ensures x == y,
{
    let j = choose|j: nat| #[trigger] h.anc(x, j) == y;
    let k = choose|k: nat| #[trigger] h.anc(y, k) == x;
    lemma_rk(h, x, j);
    lemma_rk(h, y, k);
}
=== raw lca_spec
impl LCA {
    pub open spec fn fv(self, x: int) -> int { self.first_visit.at(x) as int }
    pub open spec fn lv(self, x: int) -> int { self.last_visit.at(x) as int }
    pub open spec fn cl(self, x: int) -> Seq<NodeIndex> { self.climb_nodes.at(x)@ }
    pub open spec fn enc(self, x: int, y: int) -> bool { self.fv(x) <= self.fv(y) && self.lv(x) >= self.lv(y) }
    /// The 1st, 2nd, 4th, ... ancestors, as far as they exist.
    pub open spec fn clok(self, h: Hierarchy, x: int) -> bool {
        &&& forall|i: int| #![trigger self.cl(x)[i]] 0 <= i < self.cl(x).len() ==> self.cl(x)[i].wf() && self.cl(x)[i].i() == h.anc(x, pow2(i as nat))
        &&& h.anc(x, pow2(self.cl(x).len())) < 0
    }
    /// The structure describes the hierarchy on the nodes of dom, which contains the parents of its nodes.
    pub open spec fn of(self, h: Hierarchy, dom: ISet<int>) -> bool {
        &&& h.wf()
        &&& forall|x: int| #![trigger dom.contains(x)] dom.contains(x) ==> isn(x) && (h.par(x) >= 0 ==> dom.contains(h.par(x))) && self.clok(h, x)
        &&& forall|x: int, y: int| #![trigger h.under(y, x)] dom.contains(x) && dom.contains(y) ==> self.enc(x, y) == h.under(y, x)
    }
    /// u is a or an ancestor of it.
    pub open spec fn low(self, h: Hierarchy, dom: ISet<int>, a: int, u: NodeIndex) -> bool {
        u.wf() && dom.contains(u.i()) && h.under(a, u.i()) && (h.tree().rk)(u.i()) >= 0
    }
    pub open spec fn tail(self, w: int, c: Option<NodeIndex>) -> bool {
        match c { Some(u) => self.cl(w).len() > 0 && u == self.cl(w).last(), None => self.cl(w).len() == 0 }
    }
    pub open spec fn root_ok(self, h: Hierarchy, dom: ISet<int>, x: int, r: int) -> bool {
        dom.contains(r) && h.under(x, r) && h.par(r) == -1
    }
}
/// c is the lowest common ancestor of a and b; -1 if there is none.
pub open spec fn lca_ok(h: Hierarchy, a: int, b: int, c: int) -> bool {
    &&& c >= 0 ==> h.under(a, c) && h.under(b, c) && (forall|d: int| d >= 0 && #[trigger] h.under(a, d) && h.under(b, d) ==> h.under(c, d))
    &&& c < 0 ==> forall|d: int| d >= 0 && #[trigger] h.under(a, d) ==> !h.under(b, d)
}
proof fn lemma_dom(s: LCA, h: Hierarchy, dom: ISet<int>, x: int, k: nat)
    requires s.of(h, dom), dom.contains(x), h.anc(x, k) >= 0,
    ensures dom.contains(h.anc(x, k)),
    decreases k,
{ if k > 0 { lemma_dom(s, h, dom, h.par(x), (k - 1) as nat); } }
proof fn lemma_dom_under(s: LCA, h: Hierarchy, dom: ISet<int>, x: int, y: int)
    requires s.of(h, dom), dom.contains(x), h.under(x, y), y >= 0,
    ensures dom.contains(y),
{ let k = choose|k: nat| #[trigger] h.anc(x, k) == y; lemma_dom(s, h, dom, x, k); }
proof fn lemma_par(s: LCA, h: Hierarchy, dom: ISet<int>, x: int)
    requires s.of(h, dom), dom.contains(x),
    ensures
        h.par(x) == (if s.cl(x).len() > 0 { s.cl(x)[0].i() } else { -1 }),
        s.cl(x).len() > 0 ==> s.cl(x)[0].wf(),
{
    lemma2_to64();
    assert(h.d(x).wf());
    assert(h.anc(x, 1) == (if h.par(x) >= 0 { h.anc(h.par(x), 0) } else { -1 }));
    if s.cl(x).len() > 0 { assert(s.cl(x)[0].i() == h.anc(x, pow2(0))); }
}
/// Two hierarchies that the same structure describes agree.
proof fn lemma_same_anc(s: LCA, h: Hierarchy, dom: ISet<int>, g: Hierarchy, dg: ISet<int>, x: int, k: nat)
    requires s.of(h, dom), s.of(g, dg), dom.contains(x), dg.contains(x),
    ensures h.anc(x, k) == g.anc(x, k), h.anc(x, k) >= 0 ==> dg.contains(h.anc(x, k)),
    decreases k,
{
    lemma_par(s, h, dom, x); lemma_par(s, g, dg, x);
    if k > 0 && h.par(x) >= 0 { lemma_same_anc(s, h, dom, g, dg, h.par(x), (k - 1) as nat); }
}
proof fn lemma_same_under(s: LCA, h: Hierarchy, dom: ISet<int>, g: Hierarchy, dg: ISet<int>, x: int)
    requires s.of(h, dom), s.of(g, dg), dom.contains(x), dg.contains(x),
    ensures forall|d: int| #![trigger h.under(x, d)] #![trigger g.under(x, d)] d >= 0 ==> h.under(x, d) == g.under(x, d),
{
    assert forall|d: int| #![trigger h.under(x, d)] #![trigger g.under(x, d)] d >= 0 implies h.under(x, d) == g.under(x, d) by {
        if h.under(x, d) { let k = choose|k: nat| #[trigger] h.anc(x, k) == d; lemma_same_anc(s, h, dom, g, dg, x, k); assert(g.anc(x, k) == d); }
        if g.under(x, d) { let k = choose|k: nat| #[trigger] g.anc(x, k) == d; lemma_same_anc(s, h, dom, g, dg, x, k); assert(h.anc(x, k) == d); }
    }
}
proof fn lemma_root_same(s: LCA, h: Hierarchy, dom: ISet<int>, g: Hierarchy, dg: ISet<int>, x: int, r: int)
    requires s.of(h, dom), s.of(g, dg), dom.contains(x), dg.contains(x), s.root_ok(h, dom, x, r),
    ensures s.root_ok(g, dg, x, r),
{
    lemma_same_under(s, h, dom, g, dg, x);
    assert(g.under(x, r));
    lemma_dom_under(s, g, dg, x, r);
    lemma_par(s, h, dom, r); lemma_par(s, g, dg, r);
}
proof fn lemma_lca_same(s: LCA, h: Hierarchy, dom: ISet<int>, g: Hierarchy, dg: ISet<int>, a: int, b: int, c: int)
    requires s.of(h, dom), s.of(g, dg), dom.contains(a), dg.contains(a), dom.contains(b), dg.contains(b), lca_ok(h, a, b, c),
    ensures lca_ok(g, a, b, c),
{
    lemma_same_under(s, h, dom, g, dg, a);
    lemma_same_under(s, h, dom, g, dg, b);
    if c >= 0 {
        lemma_dom_under(s, h, dom, a, c);
        lemma_dom_under(s, g, dg, a, c);
        lemma_same_under(s, h, dom, g, dg, c);
    }
}
/// The last climb node, and how climb nodes of u relate.
proof fn lemma_climb(s: LCA, h: Hierarchy, dom: ISet<int>, u: int, i: int)
    requires s.of(h, dom), dom.contains(u), 0 <= i < s.cl(u).len(),
    ensures s.cl(u)[i].wf(), dom.contains(s.cl(u)[i].i()), h.under(u, s.cl(u)[i].i()), (h.tree().rk)(s.cl(u)[i].i()) < (h.tree().rk)(u), (h.tree().rk)(s.cl(u)[i].i()) >= 0,
{
    let k = pow2(i as nat);
    lemma_pow2_pos(i as nat);
    assert(s.cl(u)[i].i() == h.anc(u, k));
    lemma_dom(s, h, dom, u, k);
    lemma_rk(h, u, k);
}
/// From u to its 2^i-th ancestor v, when the 2^(i+1)-th exists and is above b.
proof fn lemma_jump(s: LCA, h: Hierarchy, dom: ISet<int>, u: int, b: int, i: int)
    requires s.of(h, dom), dom.contains(u), 0 <= i, i + 1 < s.cl(u).len(), h.under(b, s.cl(u)[i + 1].i()), dom.contains(b),
    ensures ({
        let v = s.cl(u)[i].i();
        let m = s.cl(v).len();
        m >= i + 1 && h.under(b, s.cl(v)[m - 1].i())
    }),
{
    let v = s.cl(u)[i].i();
    let m = s.cl(v).len();
    lemma_climb(s, h, dom, u, i);
    lemma_climb(s, h, dom, u, i + 1);
    let w = s.cl(u)[i + 1].i();
    assert(w == h.anc(u, pow2((i + 1) as nat)));
    lemma_pow2_unfold((i + 1) as nat);
    assert(v == h.anc(u, pow2(i as nat)));
    lemma_anc_add(h, u, pow2(i as nat), pow2(i as nat));
    assert(h.anc(v, pow2(i as nat)) == w);
    if m < i + 1 {
        if m < i { lemma_pow2_strictly_increases(m, i as nat); }
        lemma_anc_none(h, v, pow2(m), pow2(i as nat));
    }
    let z = s.cl(v)[m - 1].i();
    lemma_climb(s, h, dom, v, m - 1);
    let (p, q) = (pow2(i as nat), pow2((m - 1) as nat));
    if i < m - 1 { lemma_pow2_strictly_increases(i as nat, (m - 1) as nat); }
    assert(z == h.anc(v, q));
    lemma_anc_add(h, v, p, (q - p) as nat);
    assert(p + (q - p) as nat == q);
    assert(h.under(w, z)) by { assert(h.anc(w, (q - p) as nat) == z); }
    lemma_trans(h, b, w, z);
}
/// u is below a common ancestor c = par(u): it is the lowest.
proof fn lemma_lowest(h: Hierarchy, a: int, b: int, u: int)
    requires h.wf(), h.under(a, u), !h.under(b, u), u >= 0, h.par(u) >= 0, h.under(b, h.par(u)), a >= 0, b >= 0,
    ensures lca_ok(h, a, b, h.par(u)),
{
    let c = h.par(u);
    lemma_under(h, u, c); lemma_under(h, c, c);
    lemma_trans(h, a, u, c);
    assert forall|d: int| d >= 0 && #[trigger] h.under(a, d) && h.under(b, d) implies h.under(c, d) by {
        lemma_chain(h, a, u, d);
        if !h.under(u, d) { lemma_trans(h, b, d, u); }
        lemma_under(h, u, d);
    }
}
proof fn lemma_self(h: Hierarchy, x: int)
    requires x >= 0,
    ensures h.under(x, x),
{ lemma_under(h, x, x); }
proof fn lemma_top(h: Hierarchy, x: int, r: int, d: int)
    requires h.wf(), h.under(x, r), h.par(r) == -1, h.under(x, d), r >= 0, d >= 0,
    ensures h.under(d, r),
{
    lemma_chain(h, x, r, d);
    if h.under(r, d) { lemma_under(h, r, d); lemma_self(h, d); }
}
proof fn lemma_tops(h: Hierarchy, d: int, x: int, y: int)
    requires h.wf(), h.under(d, x), h.under(d, y), h.par(x) == -1, h.par(y) == -1, x >= 0, y >= 0,
    ensures x == y,
{ lemma_chain(h, d, x, y); lemma_under(h, x, y); lemma_under(h, y, x); }
=== fn algorithms::lca LCA::is_ancestor mapix=first_visit,last_visit,climb_nodes
--- spec
requires a.wf(), b.wf(),
ensures
    r == self.enc(a.i(), b.i()),
    forall|h: Hierarchy, dom: ISet<int>| #![trigger self.of(h, dom)] self.of(h, dom) && dom.contains(a.i()) && dom.contains(b.i()) ==> r == h.under(b.i(), a.i()),
--- hint end
proof {
    assert forall|h: Hierarchy, dom: ISet<int>| #![trigger self.of(h, dom)] self.of(h, dom) && dom.contains(a.i()) && dom.contains(b.i()) implies __ret == h.under(b.i(), a.i()) by { assert(self.enc(a.i(), b.i()) == h.under(b.i(), a.i())); }
}
=== fn algorithms::lca LCA::root mapix=first_visit,last_visit,climb_nodes
--- spec
requires node.wf(), exists|h: Hierarchy, dom: ISet<int>| #[trigger] self.of(h, dom) && dom.contains(node.i()),
ensures r.wf(), forall|h: Hierarchy, dom: ISet<int>| #![trigger self.of(h, dom)] self.of(h, dom) && dom.contains(node.i()) ==> self.root_ok(h, dom, node.i(), r.i()),
--- hint start
let ghost (h, dom) = choose|h: Hierarchy, dom: ISet<int>| #[trigger] self.of(h, dom) && dom.contains(node.i());
proof { lemma_self(h, node.i()); assert(h.wf_up(h.tree(), node.i())); }
--- loop 0
invariant self.of(h, dom), dom.contains(node.i()), u.wf(), dom.contains(u.i()), h.under(node.i(), u.i()), (h.tree().rk)(u.i()) >= 0,
ensures self.root_ok(h, dom, node.i(), u.i()),
decreases (h.tree().rk)(u.i()),
--- hint loop0.start
proof { lemma_par(*self, h, dom, u.i()); }
let ghost u0 = u;
--- hint loop0.end
proof { lemma_climb(*self, h, dom, u0.i(), self.cl(u0.i()).len() - 1); lemma_trans(h, node.i(), u0.i(), u.i()); }
--- hint end
proof {
    assert forall|g: Hierarchy, dg: ISet<int>| #![trigger self.of(g, dg)] self.of(g, dg) && dg.contains(node.i()) implies self.root_ok(g, dg, node.i(), u.i()) by { lemma_root_same(*self, h, dom, g, dg, node.i(), u.i()); }
}
=== fn algorithms::lca LCA::lca mapix=first_visit,last_visit,climb_nodes eager tryopt
--- spec
requires a.wf(), b.wf(), exists|h: Hierarchy, dom: ISet<int>| #[trigger] self.of(h, dom) && dom.contains(a.i()) && dom.contains(b.i()),
ensures
    r.is_some() ==> r.unwrap().wf(),
    forall|h: Hierarchy, dom: ISet<int>| #![trigger self.of(h, dom)] self.of(h, dom) && dom.contains(a.i()) && dom.contains(b.i()) ==> lca_ok(h, a.i(), b.i(), match r { Some(c) => c.i(), None => -1 }),
--- hint start
let ghost (h, dom) = choose|h: Hierarchy, dom: ISet<int>| #[trigger] self.of(h, dom) && dom.contains(a.i()) && dom.contains(b.i());
proof {
    lemma_self(h, a.i()); lemma_self(h, b.i());
    assert(h.wf_up(h.tree(), a.i()));
    assert forall|c: int, g: Hierarchy, dg: ISet<int>| #![trigger self.of(g, dg), lca_ok(h, a.i(), b.i(), c)] lca_ok(h, a.i(), b.i(), c) && self.of(g, dg) && dg.contains(a.i()) && dg.contains(b.i()) implies lca_ok(g, a.i(), b.i(), c) by { lemma_lca_same(*self, h, dom, g, dg, a.i(), b.i(), c); }
}
--- hint before return#0
proof { assert(lca_ok(h, a.i(), b.i(), a.i())); }
--- hint before return#1
proof { assert(lca_ok(h, a.i(), b.i(), b.i())); }
--- hint before return#2
proof {
    assert(exists|x: int, y: int| #[trigger] self.root_ok(h, dom, a.i(), x) && #[trigger] self.root_ok(h, dom, b.i(), y) && x != y);
    let (x, y) = choose|x: int, y: int| #[trigger] self.root_ok(h, dom, a.i(), x) && #[trigger] self.root_ok(h, dom, b.i(), y) && x != y;
    assert forall|d: int| d >= 0 && #[trigger] h.under(a.i(), d) implies !h.under(b.i(), d) by {
        if h.under(b.i(), d) { lemma_top(h, a.i(), x, d); lemma_top(h, b.i(), y, d); lemma_tops(h, d, x, y); }
    }
    assert(lca_ok(h, a.i(), b.i(), -1));
}
--- hint after let:__last#0
let ghost __lt: Option<Option<NodeIndex>> = __last;
proof { assert(exists|x: int| #[trigger] self.root_ok(h, dom, a.i(), x) && self.root_ok(h, dom, b.i(), x)); }
let ghost rt = choose|x: int| #[trigger] self.root_ok(h, dom, a.i(), x) && self.root_ok(h, dom, b.i(), x);
--- loop 0
invariant
    self.of(h, dom), dom.contains(a.i()), dom.contains(b.i()), b.wf(), a.wf(), self.root_ok(h, dom, a.i(), rt), self.root_ok(h, dom, b.i(), rt), !h.under(b.i(), a.i()),
    __cur.is_some() ==> self.low(h, dom, a.i(), __cur.unwrap()),
    __last.is_none() ==> __cur == Some(a),
    __last.is_some() ==> __last.unwrap().is_some() && self.low(h, dom, a.i(), __last.unwrap().unwrap()) && !h.under(b.i(), __last.unwrap().unwrap().i()) && self.tail(__last.unwrap().unwrap().i(), __cur),
ensures
    __last.is_some() && __last.unwrap().is_some(),
    self.low(h, dom, a.i(), __last.unwrap().unwrap()) && !h.under(b.i(), __last.unwrap().unwrap().i()),
    self.cl(__last.unwrap().unwrap().i()).len() > 0 && h.under(b.i(), self.cl(__last.unwrap().unwrap().i()).last().i()),
decreases (if __cur.is_some() { (h.tree().rk)(__cur.unwrap().i()) + 1 } else { 0 }),
--- hint after let:__keep#0
proof {
    if __cur.is_none() {
        let w = __last.unwrap().unwrap();
        lemma_par(*self, h, dom, w.i());
        lemma_tops(h, a.i(), w.i(), rt);
    } else {
        let u = __cur.unwrap();
        lemma_par(*self, h, dom, u.i());
        if self.cl(u.i()).len() > 0 { lemma_climb(*self, h, dom, u.i(), self.cl(u.i()).len() - 1); lemma_trans(h, a.i(), u.i(), self.cl(u.i()).last().i()); }
    }
}
--- loop 1
invariant
    self.of(h, dom), dom.contains(a.i()), dom.contains(b.i()), b.wf(), a.wf(),
    self.low(h, dom, a.i(), u), !h.under(b.i(), u.i()), i < self.cl(u.i()).len(), h.under(b.i(), self.cl(u.i())[i as int].i()),
decreases (h.tree().rk)(u.i()), i,
--- hint after let:v#0
let ghost u0 = u;
proof {
    lemma_climb(*self, h, dom, u.i(), i as int);
    lemma_trans(h, a.i(), u.i(), v.i());
    lemma_jump(*self, h, dom, u.i(), b.i(), i as int);
}
--- hint end
proof { lemma_par(*self, h, dom, u.i()); lemma_lowest(h, a.i(), b.i(), u.i()); }
=== raw lca_dfs
use vstd::set_lib::*;
pub open spec fn nd(s: DFSState) -> int { match s { DFSState::Visit { node, parent } => node.i(), DFSState::Finish { node } => node.i() } }
pub open spec fn isf(s: DFSState) -> bool { s is Finish }
pub open spec fn nwf(s: DFSState) -> bool { match s { DFSState::Visit { node, parent } => node.wf(), DFSState::Finish { node } => node.wf() } }
/// The node of the last Finish before place i, or -1.
pub open spec fn latest(st: Seq<DFSState>, i: int) -> int
    decreases i,
{ if i <= 0 { -1 } else if isf(st[i - 1]) { nd(st[i - 1]) } else { latest(st, i - 1) } }
/// y is waiting to be finished, below place i.
pub open spec fn open_(st: Seq<DFSState>, i: int, y: int) -> bool { exists|j: int| 0 <= j < i && isf(#[trigger] st[j]) && nd(st[j]) == y }
pub open spec fn on_(st: Seq<DFSState>, y: int) -> bool { exists|j: int| 0 <= j < st.len() && nd(#[trigger] st[j]) == y }
/// An entry of the stack.
pub open spec fn entry(h: Hierarchy, st: Seq<DFSState>, i: int) -> bool {
    &&& nwf(st[i])
    &&& h.par(nd(st[i])) == latest(st, i)
    &&& match st[i] { DFSState::Visit { node, parent } => is_ix(parent, latest(st, i)), DFSState::Finish { node } => true }
}
pub struct Dfs { pub h: Hierarchy, pub l: LCA, pub st: Seq<DFSState>, pub vis: Set<int>, pub clo: Set<int>, pub t: int, pub rts: ISet<int> }
impl Dfs {
    pub open spec fn stack_ok(self) -> bool {
        &&& forall|i: int| #![trigger self.st[i]] 0 <= i < self.st.len() ==> entry(self.h, self.st, i)
        &&& forall|i: int| #![trigger self.st[i]] 0 <= i < self.st.len() && self.h.par(nd(self.st[i])) < 0 ==> self.rts.contains(nd(self.st[i]))
        &&& forall|i: int, j: int| #![trigger self.st[i], self.st[j]] 0 <= i < j < self.st.len() ==> nd(self.st[i]) != nd(self.st[j])
        &&& forall|i: int| #![trigger self.st[i]] 0 <= i < self.st.len() ==> (if isf(self.st[i]) { self.vis.contains(nd(self.st[i])) && !self.clo.contains(nd(self.st[i])) } else { !self.vis.contains(nd(self.st[i])) })
        &&& forall|x: int| #![trigger self.vis.contains(x)] self.vis.contains(x) && !self.clo.contains(x) ==> open_(self.st, self.st.len() as int, x)
    }
    pub open spec fn node_ok(self) -> bool {
        &&& forall|x: int| #![trigger self.clo.contains(x)] self.clo.contains(x) ==> self.vis.contains(x)
        &&& forall|x: int| #![trigger self.vis.contains(x)] self.vis.contains(x) ==> isn(x) && (self.h.par(x) >= 0 ==> self.vis.contains(self.h.par(x))) && (self.h.par(x) < 0 ==> self.rts.contains(x))
        &&& forall|c: int| #![trigger self.h.par(c)] isn(c) && self.vis.contains(self.h.par(c)) ==> (if self.clo.contains(self.h.par(c)) { self.clo.contains(c) } else { self.clo.contains(c) || on_(self.st, c) })
    }
    pub open spec fn time_ok(self) -> bool {
        &&& forall|x: int| #![trigger self.vis.contains(x)] self.vis.contains(x) ==> 0 <= self.l.fv(x) < self.t && self.l.clok(self.h, x)
        &&& forall|x: int| #![trigger self.vis.contains(x)] !self.vis.contains(x) ==> self.l.cl(x).len() == 0
        &&& forall|x: int| #![trigger self.clo.contains(x)] self.clo.contains(x) ==> self.l.lv(x) < self.t
        &&& forall|x: int, y: int| #![trigger self.h.under(y, x)] self.vis.contains(x) && self.vis.contains(y) ==>
            self.h.under(y, x) == (self.l.fv(x) <= self.l.fv(y) && (!self.clo.contains(x) || (self.clo.contains(y) && self.l.lv(x) >= self.l.lv(y))))
        &&& self.t == self.vis.len() + self.clo.len()
    }
    #[verifier::opaque]
    pub open spec fn inv(self) -> bool { self.h.wf() && self.stack_ok() && self.node_ok() && self.time_ok() }
}
proof fn lemma_latest(st: Seq<DFSState>, i: int)
    requires 0 <= i <= st.len(), forall|j: int| #![trigger st[j]] 0 <= j < i ==> nwf(st[j]),
    ensures latest(st, i) >= 0 ==> exists|j: int| 0 <= j < i && isf(#[trigger] st[j]) && nd(st[j]) == latest(st, i) && forall|k: int| #![trigger st[k]] j < k < i ==> !isf(st[k]),
        latest(st, i) < 0 ==> latest(st, i) == -1 && forall|k: int| #![trigger st[k]] 0 <= k < i ==> !isf(st[k]),
    decreases i,
{ if i > 0 { assert(nwf(st[i - 1])); if !isf(st[i - 1]) { lemma_latest(st, i - 1); } } }
proof fn lemma_latest_same(a: Seq<DFSState>, b: Seq<DFSState>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| #![trigger a[j]] 0 <= j < i ==> a[j] == b[j],
    ensures latest(a, i) == latest(b, i),
    decreases i,
{ if i > 0 { assert(a[i - 1] == b[i - 1]); lemma_latest_same(a, b, i - 1); } }
/// The proper ancestors of an entry are the open nodes below it.
proof fn lemma_open_anc(d: Dfs, i: int, y: int)
    requires d.h.wf(), d.stack_ok(), 0 <= i < d.st.len(), y >= 0,
    ensures (d.h.under(nd(d.st[i]), y) && y != nd(d.st[i])) == open_(d.st, i, y),
    decreases i,
{
    let x = nd(d.st[i]);
    assert(entry(d.h, d.st, i));
    lemma_latest(d.st, i);
    lemma_under(d.h, x, y);
    let p = d.h.par(x);
    if p >= 0 {
        let j = choose|j: int| 0 <= j < i && isf(#[trigger] d.st[j]) && nd(d.st[j]) == p && forall|k: int| #![trigger d.st[k]] j < k < i ==> !isf(d.st[k]);
        lemma_open_anc(d, j, y);
        assert(d.st[j] == d.st[j]);
        if d.h.under(p, y) && y == x { lemma_under(d.h, x, p); lemma_self(d.h, p); lemma_anti(d.h, x, p); assert(nd(d.st[i]) != nd(d.st[j])); }
        if open_(d.st, i, y) {
            let k = choose|k: int| 0 <= k < i && isf(#[trigger] d.st[k]) && nd(d.st[k]) == y;
            if k < j { assert(open_(d.st, j, y)); } else { assert(k == j); lemma_self(d.h, y); }
            assert(nd(d.st[k]) != nd(d.st[i]));
        }
    }
}
/// Everything under a closed node is closed.
proof fn lemma_closed_under(d: Dfs, y: int, x: int, k: nat)
    requires d.h.wf(), d.node_ok(), d.clo.contains(x), d.h.anc(y, k) == x, isn(y),
    ensures d.clo.contains(y),
    decreases k,
{
    if k > 0 {
        let p = d.h.par(y);
        assert(d.h.d(y).wf());
        lemma_closed_under(d, p, x, (k - 1) as nat);
        assert(d.vis.contains(d.h.par(y)));
    }
}
/// What is above a visited node is visited.
proof fn lemma_vis_up(d: Dfs, y: int, k: nat)
    requires d.node_ok(), d.vis.contains(y), d.h.anc(y, k) >= 0,
    ensures d.vis.contains(d.h.anc(y, k)),
    decreases k,
{ if k > 0 { lemma_vis_up(d, d.h.par(y), (k - 1) as nat); } }
proof fn lemma_sizes(d: Dfs)
    requires d.node_ok(),
    ensures d.vis.len() <= top() + 1, d.clo.len() <= d.vis.len(),
{
    lemma_int_range(0, top() + 1);
    assert(d.vis.subset_of(set_int_range(0, top() + 1)));
    lemma_len_subset(d.vis, set_int_range(0, top() + 1));
    assert(d.clo.subset_of(d.vis));
    lemma_len_subset(d.clo, d.vis);
}
/// A node is finished.
proof fn lemma_finish(d: Dfs, e: Dfs)
    requires
        d.inv(), d.st.len() > 0, isf(d.st.last()),
        e.h == d.h, e.st == d.st.drop_last(), e.vis == d.vis, e.clo == d.clo.insert(nd(d.st.last())), e.t == d.t + 1, e.rts == d.rts,
        e.l.first_visit == d.l.first_visit, e.l.climb_nodes == d.l.climb_nodes,
        forall|x: int| #![trigger e.l.lv(x)] #![trigger d.l.lv(x)] e.l.lv(x) == (if x == nd(d.st.last()) { d.t } else { d.l.lv(x) }),
    ensures e.inv(), e.t <= 2 * (top() + 1),
{
    reveal(Dfs::inv);
    let n = d.st.len() - 1;
    let x0 = nd(d.st[n]);
    assert(d.st[n] == d.st.last());
    assert(entry(d.h, d.st, n));
    lemma_sizes(d);
    assert(forall|x: int| #![trigger e.l.fv(x)] e.l.fv(x) == d.l.fv(x));
    assert(forall|x: int| #![trigger e.l.cl(x)] e.l.cl(x) == d.l.cl(x));
    assert forall|i: int| #![trigger e.st[i]] 0 <= i < e.st.len() implies entry(e.h, e.st, i) && (if isf(e.st[i]) { e.vis.contains(nd(e.st[i])) && !e.clo.contains(nd(e.st[i])) } else { !e.vis.contains(nd(e.st[i])) }) by {
        assert(e.st[i] == d.st[i]);
        assert(entry(d.h, d.st, i));
        lemma_latest_same(e.st, d.st, i);
        assert(nd(d.st[i]) != nd(d.st[n]));
    }
    assert forall|i: int, j: int| #![trigger e.st[i], e.st[j]] 0 <= i < j < e.st.len() implies nd(e.st[i]) != nd(e.st[j]) by { assert(nd(d.st[i]) != nd(d.st[j])); }
    assert forall|x: int| #![trigger e.vis.contains(x)] e.vis.contains(x) && !e.clo.contains(x) implies open_(e.st, e.st.len() as int, x) by {
        assert(d.vis.contains(x) && !d.clo.contains(x));
        let j = choose|j: int| 0 <= j < d.st.len() && isf(#[trigger] d.st[j]) && nd(d.st[j]) == x;
        assert(e.st[j] == d.st[j]);
    }
    // The children of the node are closed.
    assert forall|c: int| #![trigger e.h.par(c)] isn(c) && e.vis.contains(e.h.par(c)) implies (if e.clo.contains(e.h.par(c)) { e.clo.contains(c) } else { e.clo.contains(c) || on_(e.st, c) }) by {
        let p = d.h.par(c);
        assert(d.vis.contains(d.h.par(c)));
        if !d.clo.contains(c) && !d.clo.contains(p) && c != x0 {
            let j = choose|j: int| 0 <= j < d.st.len() && nd(#[trigger] d.st[j]) == c;
            assert(entry(d.h, d.st, j));
            assert(e.st[j] == d.st[j]);
            assert(on_(e.st, c));
            if p == x0 {
                lemma_latest(d.st, j);
                let k = choose|k: int| 0 <= k < j && isf(#[trigger] d.st[k]) && nd(d.st[k]) == latest(d.st, j);
                assert(nd(d.st[k]) != nd(d.st[n]));
            }
        }
        if c == x0 && d.clo.contains(p) { assert(d.clo.contains(c)); }
    }
    assert(e.node_ok());
    assert forall|x: int, y: int| #![trigger e.h.under(y, x)] e.vis.contains(x) && e.vis.contains(y) implies
            e.h.under(y, x) == (e.l.fv(x) <= e.l.fv(y) && (!e.clo.contains(x) || (e.clo.contains(y) && e.l.lv(x) >= e.l.lv(y)))) by {
        assert(d.vis.contains(x) && d.vis.contains(y));
        assert(d.h.under(y, x) == (d.l.fv(x) <= d.l.fv(y) && (!d.clo.contains(x) || (d.clo.contains(y) && d.l.lv(x) >= d.l.lv(y)))));
        if x == x0 && d.h.under(y, x) {
            let k = choose|k: nat| #[trigger] d.h.anc(y, k) == x;
            lemma_closed_under(e, y, x, k);
            if y != x { assert(d.clo.contains(y)); }
        }
    }
    assert forall|x: int| #![trigger e.vis.contains(x)] e.vis.contains(x) implies 0 <= e.l.fv(x) < e.t && e.l.clok(e.h, x) by { assert(d.vis.contains(x) && d.l.clok(d.h, x)); }
    lemma_sizes(e);
}
=== raw lca_visit
proof fn lemma_latest_at(st: Seq<DFSState>, m: int, i: int)
    requires 0 <= m < i <= st.len(), isf(st[m]), forall|k: int| #![trigger st[k]] m < k < i ==> !isf(st[k]),
    ensures latest(st, i) == nd(st[m]),
    decreases i,
{ if i > m + 1 { lemma_latest_at(st, m, i - 1); } }
/// The stack after visiting node, with k children pushed.
pub open spec fn pushed(h: Hierarchy, st: Seq<DFSState>, node: NodeIndex, k: int) -> Seq<DFSState> {
    st.drop_last().push(DFSState::Finish { node }) + Seq::new(k as nat, |i: int| DFSState::Visit { node: NodeIndex::mk(h.kids(node.i())[i]), parent: Some(node) })
}
/// The kids of a node on the new stack.
proof fn lemma_new_kid(d: Dfs, node: NodeIndex, k: int)
    requires d.h.wf(), d.stack_ok(), d.node_ok(), d.st.len() > 0, !isf(d.st.last()), node == (match d.st.last() { DFSState::Visit { node, parent } => node, DFSState::Finish { node } => node }),
        0 <= k < d.h.kids(node.i()).len(),
    ensures
        isn(d.h.kids(node.i())[k]), d.h.par(d.h.kids(node.i())[k]) == node.i(),
        !d.vis.contains(d.h.kids(node.i())[k]), !on_(d.st, d.h.kids(node.i())[k]), d.h.kids(node.i())[k] != node.i(),
{
    let n = d.st.len() - 1;
    assert(d.st[n] == d.st.last());
    assert(entry(d.h, d.st, n));
    let t = d.h.tree();
    lemma_kids(d.h, t);
    assert(d.h.wf_at(t, node.i(), k));
    let c = d.h.kids(node.i())[k];
    assert(d.h.wf_up(t, c));
    if on_(d.st, c) {
        let i = choose|i: int| 0 <= i < d.st.len() && nd(#[trigger] d.st[i]) == c;
        assert(entry(d.h, d.st, i));
        lemma_latest(d.st, i);
        let j = choose|j: int| 0 <= j < i && isf(#[trigger] d.st[j]) && nd(d.st[j]) == latest(d.st, i);
        assert(nd(d.st[j]) == nd(d.st[n]));
    }
}
proof fn lemma_visit(d: Dfs, e: Dfs, node: NodeIndex)
    requires
        d.inv(), d.st.len() > 0, !isf(d.st.last()), node == (match d.st.last() { DFSState::Visit { node, parent } => node, DFSState::Finish { node } => node }),
        e.h == d.h, e.st == pushed(d.h, d.st, node, d.h.kids(node.i()).len() as int), e.vis == d.vis.insert(node.i()), e.clo == d.clo, e.t == d.t + 1, e.rts == d.rts,
        forall|x: int| #![trigger e.l.fv(x)] #![trigger d.l.fv(x)] e.l.fv(x) == (if x == node.i() { d.t } else { d.l.fv(x) }),
        forall|x: int| #![trigger e.l.cl(x)] #![trigger d.l.cl(x)] x != node.i() ==> e.l.cl(x) == d.l.cl(x),
        e.l.clok(d.h, node.i()),
        e.l.last_visit == d.l.last_visit,
    ensures e.inv(), e.t <= 2 * (top() + 1),
{
    reveal(Dfs::inv);
    let m = d.st.len() - 1;
    let n = node.i();
    let h = d.h;
    let ks = h.kids(n);
    assert(d.st[m] == d.st.last());
    assert(entry(h, d.st, m));
    assert(!d.vis.contains(n));
    assert(!d.clo.contains(n));
    lemma_latest(d.st, m);
    lemma_sizes(d);
    assert(forall|x: int| #![trigger e.l.lv(x)] e.l.lv(x) == d.l.lv(x));
    assert(e.st.len() == m + 1 + ks.len());
    assert(forall|i: int| #![trigger e.st[i]] 0 <= i < m ==> e.st[i] == d.st[i]);
    assert(e.st[m] == DFSState::Finish { node });
    assert forall|i: int| #![trigger e.st[i]] m < i < e.st.len() implies e.st[i] == (DFSState::Visit { node: NodeIndex::mk(ks[i - m - 1]), parent: Some(node) }) && isn(ks[i - m - 1]) && nd(e.st[i]) == ks[i - m - 1] && h.par(nd(e.st[i])) == n
        && !d.vis.contains(nd(e.st[i])) && !on_(d.st, nd(e.st[i])) && nd(e.st[i]) != n by { lemma_new_kid(d, node, i - m - 1); }
    assert forall|i: int| #![trigger e.st[i]] 0 <= i < e.st.len() implies entry(e.h, e.st, i) && (h.par(nd(e.st[i])) < 0 ==> e.rts.contains(nd(e.st[i])))
        && (if isf(e.st[i]) { e.vis.contains(nd(e.st[i])) && !e.clo.contains(nd(e.st[i])) } else { !e.vis.contains(nd(e.st[i])) }) by {
        if i <= m {
            assert(entry(h, d.st, i));
            lemma_latest_same(e.st, d.st, i);
            if i < m { assert(nd(d.st[i]) != nd(d.st[m])); }
        } else {
            lemma_latest_at(e.st, m, i);
        }
    }
    assert forall|i: int, j: int| #![trigger e.st[i], e.st[j]] 0 <= i < j < e.st.len() implies nd(e.st[i]) != nd(e.st[j]) by {
        if j < m { assert(nd(d.st[i]) != nd(d.st[j])); }
        else if j == m { assert(nd(d.st[i]) != nd(d.st[m])); }
        else if i < m { assert(nd(d.st[i]) == nd(e.st[i])); }
        else if i > m {
            let t = h.tree();
            lemma_kids(h, t);
            assert(h.wf_at(t, n, i - m - 1) && h.wf_at(t, n, j - m - 1));
        }
    }
    assert forall|x: int| #![trigger e.vis.contains(x)] e.vis.contains(x) && !e.clo.contains(x) implies open_(e.st, e.st.len() as int, x) by {
        if x == n { assert(isf(e.st[m]) && nd(e.st[m]) == x); }
        else {
            assert(d.vis.contains(x) && !d.clo.contains(x));
            let j = choose|j: int| 0 <= j < d.st.len() && isf(#[trigger] d.st[j]) && nd(d.st[j]) == x;
            assert(e.st[j] == d.st[j]);
        }
    }
    assert(e.stack_ok());
    assert forall|x: int| #![trigger e.vis.contains(x)] e.vis.contains(x) implies isn(x) && (h.par(x) >= 0 ==> e.vis.contains(h.par(x))) && (h.par(x) < 0 ==> e.rts.contains(x)) by {
        if x == n {
            if h.par(x) >= 0 {
                let j = choose|j: int| 0 <= j < m && isf(#[trigger] d.st[j]) && nd(d.st[j]) == latest(d.st, m);
                assert(d.vis.contains(nd(d.st[j])));
            }
        } else { assert(d.vis.contains(x)); }
    }
    assert forall|c: int| #![trigger h.par(c)] isn(c) && e.vis.contains(h.par(c)) implies (if e.clo.contains(h.par(c)) { e.clo.contains(c) } else { e.clo.contains(c) || on_(e.st, c) }) by {
        if h.par(c) == n {
            let t = h.tree();
            lemma_kids(h, t);
            assert(h.wf_up(t, c));
            let k = (t.pos)(c);
            assert(ks[k] == c);
            assert(nd(e.st[m + 1 + k]) == c);
        } else {
            assert(d.vis.contains(h.par(c)));
            if !d.clo.contains(c) {
                let j = choose|j: int| 0 <= j < d.st.len() && nd(#[trigger] d.st[j]) == c;
                assert(nd(e.st[j]) == c);
            }
        }
    }
    assert(e.node_ok());
    assert forall|x: int, y: int| #![trigger h.under(y, x)] e.vis.contains(x) && e.vis.contains(y) implies
            h.under(y, x) == (e.l.fv(x) <= e.l.fv(y) && (!e.clo.contains(x) || (e.clo.contains(y) && e.l.lv(x) >= e.l.lv(y)))) by {
        if x == n && y == n { lemma_self(h, n); }
        else if x == n {
            assert(d.vis.contains(y));
            if h.under(y, x) { let k = choose|k: nat| #[trigger] h.anc(y, k) == x; lemma_vis_up(d, y, k); }
        } else if y == n {
            assert(d.vis.contains(x));
            lemma_open_anc(d, m, x);
            if open_(d.st, m, x) { let j = choose|j: int| 0 <= j < m && isf(#[trigger] d.st[j]) && nd(d.st[j]) == x; assert(!d.clo.contains(nd(d.st[j]))); }
            if !d.clo.contains(x) { let j = choose|j: int| 0 <= j < d.st.len() && isf(#[trigger] d.st[j]) && nd(d.st[j]) == x; assert(j < m); }
        } else {
            assert(d.vis.contains(x) && d.vis.contains(y));
            assert(h.under(y, x) == (d.l.fv(x) <= d.l.fv(y) && (!d.clo.contains(x) || (d.clo.contains(y) && d.l.lv(x) >= d.l.lv(y)))));
        }
    }
    assert forall|x: int| #![trigger e.vis.contains(x)] e.vis.contains(x) implies 0 <= e.l.fv(x) < e.t && e.l.clok(h, x) by { if x != n { assert(d.vis.contains(x) && d.l.clok(h, x)); assert(e.l.cl(x) == d.l.cl(x)); } }
    assert forall|x: int| #![trigger e.vis.contains(x)] !e.vis.contains(x) implies e.l.cl(x).len() == 0 by { assert(!d.vis.contains(x)); }
    lemma_sizes(e);
}
proof fn lemma_lt_pow2(i: nat)
    ensures i < pow2(i),
    decreases i,
{
    if i == 0 { lemma2_to64(); } else { lemma_lt_pow2((i - 1) as nat); lemma_pow2_unfold(i); }
}
/// One step of the computation of the climb nodes of the node that is visited.
proof fn lemma_step(d: Dfs, node: NodeIndex, i: nat)
    requires
        d.inv(), d.st.len() > 0, !isf(d.st.last()), node == (match d.st.last() { DFSState::Visit { node, parent } => node, DFSState::Finish { node } => node }),
        d.h.anc(node.i(), pow2(i)) >= 0,
    ensures ({
        let p = d.h.anc(node.i(), pow2(i));
        &&& isn(p)
        &&& i < d.l.cl(p).len() ==> d.l.cl(p)[i as int].wf() && d.l.cl(p)[i as int].i() == d.h.anc(node.i(), pow2(i + 1))
        &&& i >= d.l.cl(p).len() ==> d.h.anc(node.i(), pow2(i + 1)) < 0
        &&& i < (d.h.tree().rk)(node.i())
    }),
{
    reveal(Dfs::inv);
    let h = d.h;
    let n = node.i();
    let m = d.st.len() - 1;
    let p = h.anc(n, pow2(i));
    assert(d.st[m] == d.st.last());
    assert(entry(h, d.st, m));
    lemma_latest(d.st, m);
    lemma_pow2_pos(i);
    let q = h.par(n);
    let j = choose|j: int| 0 <= j < m && isf(#[trigger] d.st[j]) && nd(d.st[j]) == latest(d.st, m);
    assert(d.vis.contains(nd(d.st[j])));
    lemma_vis_up(d, q, (pow2(i) - 1) as nat);
    assert(d.vis.contains(p));
    lemma_rk(h, n, pow2(i));
    lemma_lt_pow2(i);
    lemma_pow2_unfold((i + 1) as nat);
    lemma_anc_add(h, n, pow2(i), pow2(i));
    assert(d.l.clok(h, p));
    if i >= d.l.cl(p).len() {
        if i > d.l.cl(p).len() { lemma_pow2_strictly_increases(d.l.cl(p).len(), i); }
        lemma_anc_none(h, p, pow2(d.l.cl(p).len()), pow2(i));
    }
}
/// The traversal starts at the next root.
proof fn lemma_start(d: Dfs, e: Dfs, root: NodeIndex)
    requires d.inv(), d.st.len() == 0, root.wf(), d.h.par(root.i()) == -1, !d.rts.contains(root.i()), e == (Dfs { st: seq![DFSState::Visit { node: root, parent: None }], rts: e.rts, ..d }),
        forall|x: int| #![trigger d.rts.contains(x)] d.rts.contains(x) ==> e.rts.contains(x), e.rts.contains(root.i()),
    ensures e.inv(),
{
    reveal(Dfs::inv);
    assert(!d.vis.contains(root.i()));
    assert(latest(e.st, 0) == -1);
    assert forall|c: int| #![trigger e.h.par(c)] isn(c) && e.vis.contains(e.h.par(c)) implies (if e.clo.contains(e.h.par(c)) { e.clo.contains(c) } else { e.clo.contains(c) || on_(e.st, c) }) by {
        assert(d.vis.contains(d.h.par(c)));
        assert(!on_(d.st, c));
    }
    assert forall|x: int| #![trigger e.vis.contains(x)] e.vis.contains(x) && !e.clo.contains(x) implies open_(e.st, e.st.len() as int, x) by { assert(d.vis.contains(x)); assert(!open_(d.st, 0, x)); }
}
proof fn lemma_more_roots(d: Dfs, e: Dfs)
    requires d.inv(), e == (Dfs { rts: e.rts, ..d }), forall|x: int| #![trigger d.rts.contains(x)] d.rts.contains(x) ==> e.rts.contains(x),
    ensures e.inv(),
{
    reveal(Dfs::inv);
    assert forall|c: int| #![trigger e.h.par(c)] isn(c) && e.vis.contains(e.h.par(c)) implies (if e.clo.contains(e.h.par(c)) { e.clo.contains(c) } else { e.clo.contains(c) || on_(e.st, c) }) by {
        assert(d.vis.contains(d.h.par(c)));
    }
}
pub open spec fn nset(s: Seq<NodeIndex>, k: int) -> ISet<int> { ISet::new(|x: int| exists|j: int| 0 <= j < k && (#[trigger] s[j]).i() == x) }
/// A node whose root was visited is closed when the stack is empty.
proof fn lemma_all(d: Dfs, dom: ISet<int>, x: int)
    requires d.inv(), d.st.len() == 0, dom.contains(x), isn(x),
        forall|x: int| #![trigger dom.contains(x)] dom.contains(x) ==> (if d.h.par(x) >= 0 { dom.contains(d.h.par(x)) } else { d.vis.contains(x) }),
    ensures d.clo.contains(x), d.vis.contains(x),
    decreases (d.h.tree().rk)(x),
{
    assert(d.h.wf() && d.stack_ok() && d.node_ok()) by { reveal(Dfs::inv); }
    assert(d.h.wf_up(d.h.tree(), x));
    assert(d.h.d(x).wf());
    if d.h.par(x) >= 0 {
        assert(d.h.wf_up(d.h.tree(), d.h.par(x)));
        lemma_all(d, dom, d.h.par(x));
    } else {
        assert(!open_(d.st, 0, x));
    }
}
proof fn lemma_done(d: Dfs, dom: ISet<int>)
    requires d.inv(), d.st.len() == 0,
        forall|x: int| #![trigger dom.contains(x)] dom.contains(x) ==> isn(x) && (if d.h.par(x) >= 0 { dom.contains(d.h.par(x)) } else { d.vis.contains(x) }),
    ensures d.l.of(d.h, dom),
{
    assert forall|x: int| #![trigger dom.contains(x)] dom.contains(x) implies d.clo.contains(x) && d.vis.contains(x) by { lemma_all(d, dom, x); }
    reveal(Dfs::inv);
    assert forall|x: int, y: int| #![trigger d.h.under(y, x)] dom.contains(x) && dom.contains(y) implies d.l.enc(x, y) == d.h.under(y, x) by { assert(d.vis.contains(x) && d.vis.contains(y)); }
}
=== raw lca_small
proof fn lemma_init(d: Dfs)
    requires d.h.wf(), d.st.len() == 0, d.vis == Set::<int>::empty(), d.clo == Set::<int>::empty(), d.t == 0, forall|x: int| #![trigger d.l.cl(x)] d.l.cl(x).len() == 0,
    ensures d.inv(),
{ reveal(Dfs::inv); }
proof fn lemma_last(d: Dfs)
    requires d.inv(), d.st.len() > 0,
    ensures
        nwf(d.st.last()), isf(d.st.last()) ==> d.vis.contains(nd(d.st.last())),
        match d.st.last() {
            DFSState::Visit { node, parent } => is_ix(parent, d.h.par(node.i())) && d.l.cl(node.i()).len() == 0 && d.h.anc(node.i(), pow2(0)) == d.h.par(node.i()),
            DFSState::Finish { node } => true,
        },
{
    reveal(Dfs::inv);
    let m = d.st.len() - 1;
    assert(d.st[m] == d.st.last());
    assert(entry(d.h, d.st, m));
    assert(!isf(d.st[m]) ==> !d.vis.contains(nd(d.st[m])));
    lemma2_to64();
    let n = nd(d.st[m]);
    assert(d.h.d(n).wf());
    assert(d.h.anc(n, 1) == (if d.h.par(n) >= 0 { d.h.anc(d.h.par(n), 0) } else { -1 }));
}
=== fn algorithms::lca LCA::new mapix=first_visit,last_visit,climb_nodes eager gen=G:VNodes ptype:graph=G elem=NodeIndex
--- spec
requires
    hierarchy.wf(), graph.gok(),
    // the parent of a node of the graph is a node of the graph
    forall|k: int| #![trigger graph.sn()[k]] 0 <= k < graph.sn().len() && hierarchy.par(graph.sn()[k].i()) >= 0 ==> nset(graph.sn(), graph.sn().len() as int).contains(hierarchy.par(graph.sn()[k].i())),
ensures r.of(*hierarchy, nset(graph.sn(), graph.sn().len() as int)),
--- hint start
proof { graph.laws(); graph.nlaws(); axiom_vec_dflt(); }
let ghost sn = graph.sn();
let ghost h = *hierarchy;
let ghost mut vis: Set<int> = Set::empty();
let ghost mut clo: Set<int> = Set::empty();
--- hint before loop0
proof { lemma_init(Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts: nset(sn, 0) }); }
--- loop 0
invariant
    h.wf(), h == *hierarchy, sn == __all0, __it0.ok(), __it0.rest() =~= sn.skip(sn.len() - __it0.rest().len()), __it0.rest().len() <= sn.len(), stack@.len() == 0,
    forall|k: int| #![trigger sn[k]] 0 <= k < sn.len() ==> sn[k].wf(),
    forall|j: int, k: int| #![trigger sn[j], sn[k]] 0 <= j < k < sn.len() ==> sn[j].i() != sn[k].i(),
    (Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts: nset(sn, sn.len() - __it0.rest().len()) }).inv(), timestamp <= 2 * (top() + 1),
    forall|k: int| #![trigger sn[k]] 0 <= k < sn.len() - __it0.rest().len() && h.par(sn[k].i()) < 0 ==> vis.contains(sn[k].i()),
decreases __it0.rest().len(),
--- hint loop0.start
let ghost j = sn.len() - __it0.rest().len() - 1;
let ghost rts = nset(sn, j + 1);
let ghost d0 = Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts: nset(sn, j) };
proof {
    assert(root == sn[j]);
    lemma_more_roots(d0, Dfs { rts, ..d0 });
    assert(h.d(root.i()).wf());
}
--- hint after push#0
proof {
    assert(sn[j].i() == root.i());
    assert(stack@ =~= seq![DFSState::Visit { node: root, parent: None }]);
    lemma_start(d0, Dfs { st: stack@, rts, ..d0 }, root);
}
--- loop 1
invariant
    (Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts }).inv(), timestamp <= 2 * (top() + 1), h == *hierarchy, h.wf(),
    forall|k: int| #![trigger sn[k]] 0 <= k < j && h.par(sn[k].i()) < 0 ==> vis.contains(sn[k].i()),
    vis.contains(root.i()) || (stack@.len() > 0 && nd(stack@[0]) == root.i()),
ensures stack@.len() == 0,
decreases 2 * (top() + 1) - timestamp,
--- hint loop1.start
let ghost d = Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts };
proof { if stack@.len() > 0 { lemma_last(d); } }
--- hint loop1.end
proof {
    let s = d.st.last();
    if d.st.len() == 1 { assert(d.st[0] == s); }
    if isf(s) { clo = clo.insert(nd(s)); } else { vis = vis.insert(nd(s)); }
    let e = Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts };
    match s {
        DFSState::Visit { node, parent } => { lemma_visit(d, e, node); }
        DFSState::Finish { node } => { lemma_finish(d, e); }
    }
}
--- loop 2
invariant
    d.inv(), climb@.len() == __i,
    forall|i: int| #![trigger climb@[i]] 0 <= i < climb@.len() ==> climb@[i].wf() && climb@[i].i() == h.anc(node.i(), pow2(i as nat)),
    __st.is_some() ==> __st.unwrap().wf() && __st.unwrap().i() == h.anc(node.i(), pow2(__i as nat)),
    __st.is_none() ==> h.anc(node.i(), pow2(__i as nat)) < 0,
ensures
    h.anc(node.i(), pow2(climb@.len())) < 0,
decreases (h.tree().rk)(node.i()) - __i,
--- hint loop2.start
proof { if __st.is_some() { lemma_step(d, node, __i as nat); } }
--- hint after push#1
proof { assert(climb@.len() == climb.len()); }
--- hint before is_empty#0
let ghost cs = climb@;
--- hint before loop3
proof { lemma_left(__it3, node.i(), 0, h.kids(node.i()).len() as int); }
--- loop 3
invariant
    __it3.ok(), __it3.rest() =~= __all3.skip(__all3.len() - __it3.rest().len()), __it3.rest().len() <= __all3.len(),
    __all3.len() == h.kids(node.i()).len(),
    forall|k: int| #![trigger __all3[k]] 0 <= k < __all3.len() ==> __all3[k] == NodeIndex::mk(h.kids(node.i())[k]),
    stack@ =~= pushed(h, d.st, node, __all3.len() - __it3.rest().len()),
ensures __it3.rest().len() == 0,
decreases __it3.rest().len(),
--- hint end
proof {
    let d = Dfs { h, l: lca, st: stack@, vis, clo, t: timestamp as int, rts: nset(sn, sn.len() as int) };
    let dom = nset(sn, sn.len() as int);
    assert forall|x: int| #![trigger dom.contains(x)] dom.contains(x) implies isn(x) && (if h.par(x) >= 0 { dom.contains(h.par(x)) } else { d.vis.contains(x) }) by {
        let k = choose|k: int| 0 <= k < sn.len() && (#[trigger] sn[k]).i() == x;
        assert(graph.sn()[k].i() == x);
    }
    lemma_done(d, dom);
}
=== fn algorithms::lca lca bare impl= on= gen=G:VNodes ptype:graph=G
--- spec
requires
    hierarchy.wf(), graph.gok(),
    forall|k: int| #![trigger graph.sn()[k]] 0 <= k < graph.sn().len() && hierarchy.par(graph.sn()[k].i()) >= 0 ==> nset(graph.sn(), graph.sn().len() as int).contains(hierarchy.par(graph.sn()[k].i())),
ensures r.of(*hierarchy, nset(graph.sn(), graph.sn().len() as int)),
