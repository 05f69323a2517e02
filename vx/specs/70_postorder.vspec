=== default P=A02 impl=<'graph> on=PostOrder<'graph> fnvars=filter,node_filter,port_filter bix=visited
=== raw boxed_fns
/// A boxed closure: a pure function of its arguments (assumed; the documentation asks for it).
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(R)]
pub struct VFn1<A, R> { x: std::marker::PhantomData<(A, R)> }
impl<A, R> VFn1<A, R> {
    pub uninterp spec fn f(self) -> spec_fn(A) -> R;
    #[verifier::external_body]
    pub fn vcall(&mut self, a: A) -> (r: R) ensures final(self).f() == old(self).f(), r == (old(self).f())(a) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(R)]
pub struct VFn2<A, B, R> { x: std::marker::PhantomData<(A, B, R)> }
impl<A, B, R> VFn2<A, B, R> {
    pub uninterp spec fn f(self) -> spec_fn(A, B) -> R;
    #[verifier::external_body]
    pub fn vcall(&mut self, a: A, b: B) -> (r: R) ensures final(self).f() == old(self).f(), r == (old(self).f())(a, b) { unimplemented!() }
}
impl BitVec {
    #[verifier::external_body]
    pub fn replace(&mut self, i: usize, v: bool) -> (r: bool)
        requires i < old(self).bits().len(),
        ensures final(self).bits() == old(self).bits().update(i as int, v), r == old(self).bits()[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_at(&self, i: usize) -> (r: bool)
        requires i < self.bits().len(),
        ensures r == self.bits()[i as int] { unimplemented!() }
}
pub assume_specification<T>[<[T]>::reverse](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
=== type algorithms::post_order PostOrder derive=none
=== raw walks
/// There is a walk of k steps of e from x to y.
pub open spec fn walk(e: spec_fn(int, int) -> bool, x: int, y: int, k: nat) -> bool
    decreases k,
{ if k == 0 { x == y } else { exists|z: int| #[trigger] e(x, z) && walk(e, z, y, (k - 1) as nat) } }
pub open spec fn reach(e: spec_fn(int, int) -> bool, x: int, y: int) -> bool { exists|k: nat| #[trigger] walk(e, x, y, k) }
pub proof fn lemma_cat(e: spec_fn(int, int) -> bool, x: int, y: int, z: int, j: nat, k: nat)
    requires walk(e, x, y, j), walk(e, y, z, k),
    ensures walk(e, x, z, j + k),
    decreases j,
{
    if j > 0 {
        let w = choose|w: int| #[trigger] e(x, w) && walk(e, w, y, (j - 1) as nat);
        lemma_cat(e, w, y, z, (j - 1) as nat, k);
        assert((j + k - 1) as nat == (j - 1) as nat + k);
    }
}
pub proof fn lemma_reach(e: spec_fn(int, int) -> bool)
    ensures
        forall|x: int| #![trigger reach(e, x, x)] reach(e, x, x),
        forall|x: int, y: int| #![trigger e(x, y)] e(x, y) ==> reach(e, x, y),
        forall|x: int, y: int, z: int| #![trigger reach(e, x, y), reach(e, y, z)] reach(e, x, y) && reach(e, y, z) ==> reach(e, x, z),
        forall|x: int, y: int, z: int| #![trigger reach(e, x, y), e(y, z)] reach(e, x, y) && e(y, z) ==> reach(e, x, z),
        forall|x: int, y: int, z: int| #![trigger e(x, y), reach(e, y, z)] e(x, y) && reach(e, y, z) ==> reach(e, x, z),
{
    assert forall|x: int| #![trigger reach(e, x, x)] reach(e, x, x) by { assert(walk(e, x, x, 0)); }
    assert forall|x: int, y: int| #![trigger e(x, y)] e(x, y) implies reach(e, x, y) by { assert(walk(e, y, y, 0)); assert(walk(e, x, y, 1)); }
    assert forall|x: int, y: int, z: int| #![trigger reach(e, x, y), reach(e, y, z)] reach(e, x, y) && reach(e, y, z) implies reach(e, x, z) by {
        let j = choose|j: nat| #[trigger] walk(e, x, y, j);
        let k = choose|k: nat| #[trigger] walk(e, y, z, k);
        lemma_cat(e, x, y, z, j, k);
    }
}
=== fn portgraph PortGraph::node_capacity on=PortGraph impl= of=PortView
--- spec
ensures r >= self.node_meta@.len(),
=== raw post_spec
/// An accepted link leads from node x to node y in direction d.
pub open spec fn psucc(g: PortGraph, d: Direction, nf: spec_fn(NodeIndex) -> bool, pf: spec_fn(NodeIndex, PortIndex) -> bool, x: int, y: int) -> bool {
    exists|k: int| 0 <= k < g.dports(x, d).len() && pgoes(g, nf, pf, x, #[trigger] g.dports(x, d)[k], y)
}
/// The link at port p of x is accepted and leads to y.
pub open spec fn pgoes(g: PortGraph, nf: spec_fn(NodeIndex) -> bool, pf: spec_fn(NodeIndex, PortIndex) -> bool, x: int, p: PortIndex, y: int) -> bool {
    g.link(p.i()) >= 0 && g.pnode(g.link(p.i())) == y && pf(NodeIndex::mk(x), p) && nf(NodeIndex::mk(y)) && pf(NodeIndex::mk(y), PortIndex::mk(g.link(p.i())))
}
pub open spec fn fn1(f: Option<VFn1<NodeIndex, bool>>) -> spec_fn(NodeIndex) -> bool { match f { Some(f) => f.f(), None => |n: NodeIndex| true } }
pub open spec fn fn2(f: Option<VFn2<NodeIndex, PortIndex, bool>>) -> spec_fn(NodeIndex, PortIndex) -> bool { match f { Some(f) => f.f(), None => |n: NodeIndex, p: PortIndex| true } }
/// The entries that are not set.
pub open spec fn unset(s: Seq<bool>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { unset(s.drop_last()) + if s.last() { 0nat } else { 1nat } } }
proof fn lemma_unset(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(), !s[i],
    ensures unset(s) == unset(s.update(i, true)) + 1,
    decreases s.len(),
{
    if i == s.len() - 1 { assert(s.update(i, true).drop_last() =~= s.drop_last()); }
    else { lemma_unset(s.drop_last(), i); assert(s.update(i, true).drop_last() =~= s.drop_last().update(i, true)); }
}
impl<'graph> PostOrder<'graph> {
    /// The accepted steps of the traversal.
    pub open spec fn e(self) -> spec_fn(int, int) -> bool {
        let (g, d, nf, pf) = (*self.graph, self.direction, fn1(self.node_filter), fn2(self.port_filter));
        |x: int, y: int| psucc(g, d, nf, pf, x, y)
    }
    pub open spec fn same(self, o: Self) -> bool { self.graph == o.graph && self.direction == o.direction && fn1(self.node_filter) == fn1(o.node_filter) && fn2(self.port_filter) == fn2(o.port_filter) }
    pub open spec fn sk(self, k: int) -> int { self.stack@[k].i() }
    pub open spec fn vis(self, x: int) -> bool { self.visited.at(x) }
    /// The nodes that were yielded.
    pub open spec fn fin(self, x: int) -> bool { self.finished.at(x) }
    pub open spec fn act(self, x: int) -> bool { self.vis(x) && !self.fin(x) }
    /// k is the highest place of its node on the stack.
    pub open spec fn high(self, k: int) -> bool { forall|j: int| #![trigger self.sk(j)] k < j < self.stack@.len() ==> self.sk(j) != self.sk(k) }
    pub open spec fn above(self, k: int, y: int) -> bool { exists|j: int| k < j < self.stack@.len() && #[trigger] self.sk(j) == y }
    pub open spec fn inv(self) -> bool {
        &&& self.graph.wf()
        &&& self.visited.bits().len() >= self.graph.node_meta@.len() && self.finished.bits().len() >= self.graph.node_meta@.len()
        &&& forall|k: int| #![trigger self.stack@[k]] 0 <= k < self.stack@.len() ==> self.stack@[k].wf() && self.graph.has_node(self.stack@[k].i())
        &&& forall|x: int| #![trigger self.fin(x)] self.fin(x) ==> self.vis(x)
        &&& forall|x: int| #![trigger self.act(x)] self.act(x) ==> self.above(-1, x)
        &&& forall|x: int, y: int| #![trigger self.fin(x), (self.e())(x, y)] self.fin(x) && (self.e())(x, y) ==> self.vis(y)
        &&& forall|k: int, y: int| #![trigger (self.e())(self.sk(k), y)] 0 <= k < self.stack@.len() && self.act(self.sk(k)) && self.high(k) && (self.e())(self.sk(k), y) ==> self.vis(y) || self.above(k, y)
        &&& forall|k: int, j: int| #![trigger self.sk(k), self.sk(j)] 0 <= k < j < self.stack@.len() && self.act(self.sk(k)) && self.high(k) ==> reach(self.e(), self.sk(k), self.sk(j))
    }
    /// Node x is still to come.
    pub open spec fn pend(self, x: int) -> bool { !self.fin(x) && exists|k: int| 0 <= k < self.stack@.len() && reach(self.e(), #[trigger] self.sk(k), x) }
}
/// What a finished node reaches is finished, or reached from the stack.
proof fn lemma_closed(s: PostOrder<'_>, x: int, y: int, k: nat)
    requires s.inv(), s.fin(x), walk(s.e(), x, y, k), !s.fin(y),
    ensures exists|j: int| 0 <= j < s.stack@.len() && !s.fin(s.sk(j)) && reach(s.e(), #[trigger] s.sk(j), y),
    decreases k,
{
    let e = s.e();
    if k > 0 {
        let z = choose|z: int| #[trigger] e(x, z) && walk(e, z, y, (k - 1) as nat);
        if s.fin(z) { lemma_closed(s, z, y, (k - 1) as nat); }
        else {
            assert(s.act(z));
            let j = choose|j: int| -1 < j < s.stack@.len() && #[trigger] s.sk(j) == z;
            assert(reach(e, s.sk(j), y));
        }
    }
}
proof fn lemma_pop(s: PostOrder<'_>, t: PostOrder<'_>)
    requires
        s.inv(), s.stack@.len() > 0, s.fin(s.stack@.last().i()),
        t.same(s), t.stack@ == s.stack@.drop_last(), t.visited.bits() == s.visited.bits(), t.finished.bits() == s.finished.bits(),
    ensures t.inv(), forall|x: int| #![trigger t.pend(x)] #![trigger s.pend(x)] t.pend(x) == s.pend(x),
{
    let n = s.stack@.last().i();
    let l = t.stack@.len();
    assert(s.sk(l as int) == n);
    assert(forall|k: int| #![trigger t.sk(k)] #![trigger s.sk(k)] 0 <= k < l ==> t.sk(k) == s.sk(k));
    assert(forall|x: int| #![trigger t.act(x)] t.act(x) == s.act(x));
    assert forall|x: int| #![trigger t.act(x)] t.act(x) implies t.above(-1, x) by { assert(s.act(x)); let j = choose|j: int| -1 < j < s.stack@.len() && #[trigger] s.sk(j) == x; assert(t.sk(j) == x); }
    assert forall|k: int| #![trigger t.high(k)] 0 <= k < l && t.act(t.sk(k)) && t.high(k) implies s.high(k) by {
        assert forall|j: int| #![trigger s.sk(j)] k < j < s.stack@.len() implies s.sk(j) != s.sk(k) by { if j < l { assert(t.sk(j) != t.sk(k)); } }
    }
    assert forall|k: int, y: int| #![trigger (t.e())(t.sk(k), y)] 0 <= k < l && t.act(t.sk(k)) && t.high(k) && (t.e())(t.sk(k), y) implies t.vis(y) || t.above(k, y) by {
        assert((s.e())(s.sk(k), y));
        if !s.vis(y) { let j = choose|j: int| k < j < s.stack@.len() && #[trigger] s.sk(j) == y; assert(t.sk(j) == y); }
    }
    assert forall|k: int, j: int| #![trigger t.sk(k), t.sk(j)] 0 <= k < j < l && t.act(t.sk(k)) && t.high(k) implies reach(t.e(), t.sk(k), t.sk(j)) by { assert(reach(s.e(), s.sk(k), s.sk(j))); }
    assert forall|k: int| #![trigger t.stack@[k]] 0 <= k < l implies t.stack@[k].wf() && t.graph.has_node(t.stack@[k].i()) by { assert(t.stack@[k] == s.stack@[k]); }
    assert(t.e() == s.e());
    assert(forall|x: int| #![trigger t.fin(x)] t.fin(x) == s.fin(x));
    assert(forall|x: int| #![trigger t.vis(x)] t.vis(x) == s.vis(x));
    assert(t.inv());
    assert forall|x: int| #![trigger t.pend(x)] #![trigger s.pend(x)] t.pend(x) == s.pend(x) by {
        if s.pend(x) {
            let k = choose|k: int| 0 <= k < s.stack@.len() && reach(s.e(), #[trigger] s.sk(k), x);
            if k == l {
                let m = choose|m: nat| #[trigger] walk(s.e(), n, x, m);
                lemma_closed(s, n, x, m);
                let j = choose|j: int| 0 <= j < s.stack@.len() && !s.fin(s.sk(j)) && reach(s.e(), #[trigger] s.sk(j), x);
                assert(t.sk(j) == s.sk(j));
            } else { assert(t.sk(k) == s.sk(k)); }
        }
        if t.pend(x) { let k = choose|k: int| 0 <= k < l && reach(t.e(), #[trigger] t.sk(k), x); assert(s.sk(k) == t.sk(k)); }
    }
}
proof fn lemma_finish_e(s: PostOrder<'_>, y: int)
    requires s.inv(), s.stack@.len() > 0, s.act(s.stack@.last().i()), (s.e())(s.stack@.last().i(), y),
    ensures s.vis(y) && (s.fin(y) || reach(s.e(), y, s.stack@.last().i())),
{
    let n = s.stack@.last().i();
    let l = s.stack@.len() - 1;
    assert(s.stack@[l] == s.stack@.last());
    assert(s.sk(l) == n);
    assert(s.high(l));
    assert(walk(s.e(), n, n, 0));
    assert((s.e())(s.sk(l), y));
    assert(s.vis(y)) by { if s.above(l, y) { let j = choose|j: int| l < j < s.stack@.len() && #[trigger] s.sk(j) == y; } }
    if !s.fin(y) && y != n {
        assert(s.act(y));
        let j0 = choose|j: int| -1 < j < s.stack@.len() && #[trigger] s.sk(j) == y;
        lemma_high(s, j0);
        let j = choose|j: int| j0 <= j < s.stack@.len() && s.sk(j) == y && s.high(j);
        assert(j != l);
        assert(reach(s.e(), s.sk(j), s.sk(l)));
    }
}
proof fn lemma_finish_inv(s: PostOrder<'_>, t: PostOrder<'_>)
    requires
        s.inv(), s.stack@.len() > 0, s.act(s.stack@.last().i()),
        t.same(s), t.stack@ == s.stack@.drop_last(), t.visited.bits() == s.visited.bits(), t.finished.bits() == s.finished.bits().update(s.stack@.last().i(), true),
    ensures
        t.inv(), forall|x: int| #![trigger t.fin(x)] t.fin(x) == (s.fin(x) || x == s.stack@.last().i()),
{
    let n = s.stack@.last().i();
    let l = t.stack@.len();
    assert(s.sk(l as int) == n);
    assert(forall|k: int| #![trigger t.sk(k)] 0 <= k < l ==> t.sk(k) == s.sk(k));
    assert(forall|x: int| #![trigger t.fin(x)] t.fin(x) == (s.fin(x) || x == n));
    assert(forall|x: int| #![trigger t.vis(x)] t.vis(x) == s.vis(x));
    assert(forall|x: int| #![trigger t.act(x)] t.act(x) == (s.act(x) && x != n));
    assert forall|x: int| #![trigger t.act(x)] t.act(x) implies t.above(-1, x) by { assert(s.act(x)); let j = choose|j: int| -1 < j < s.stack@.len() && #[trigger] s.sk(j) == x; assert(t.sk(j) == x); }
    assert forall|k: int| #![trigger t.high(k)] 0 <= k < l && t.act(t.sk(k)) && t.high(k) implies s.high(k) by {
        assert forall|j: int| #![trigger s.sk(j)] k < j < s.stack@.len() implies s.sk(j) != s.sk(k) by { if j < l { assert(t.sk(j) != t.sk(k)); } }
    }
    assert(t.e() == s.e());
    assert forall|x: int, y: int| #![trigger t.fin(x), (t.e())(x, y)] t.fin(x) && (t.e())(x, y) implies t.vis(y) by { if x == n { lemma_finish_e(s, y); } else { assert(s.fin(x) && (s.e())(x, y)); } }
    assert forall|k: int, y: int| #![trigger (t.e())(t.sk(k), y)] 0 <= k < l && t.act(t.sk(k)) && t.high(k) && (t.e())(t.sk(k), y) implies t.vis(y) || t.above(k, y) by {
        assert((s.e())(s.sk(k), y));
        assert(s.act(s.sk(k)));
        if !s.vis(y) { let j = choose|j: int| k < j < s.stack@.len() && #[trigger] s.sk(j) == y; assert(t.sk(j) == y); }
    }
    assert forall|k: int, j: int| #![trigger t.sk(k), t.sk(j)] 0 <= k < j < l && t.act(t.sk(k)) && t.high(k) implies reach(t.e(), t.sk(k), t.sk(j)) by { assert(s.act(s.sk(k))); assert(reach(s.e(), s.sk(k), s.sk(j))); }
    assert forall|k: int| #![trigger t.stack@[k]] 0 <= k < l implies t.stack@[k].wf() && t.graph.has_node(t.stack@[k].i()) by { assert(t.stack@[k] == s.stack@[k]); }
    assert(t.inv());
}
proof fn lemma_finish(s: PostOrder<'_>, t: PostOrder<'_>)
    requires
        s.inv(), s.stack@.len() > 0, s.act(s.stack@.last().i()),
        t.same(s), t.stack@ == s.stack@.drop_last(), t.visited.bits() == s.visited.bits(), t.finished.bits() == s.finished.bits().update(s.stack@.last().i(), true),
    ensures
        t.inv(), s.pend(s.stack@.last().i()),
        forall|x: int| #![trigger t.fin(x)] t.fin(x) == (s.fin(x) || x == s.stack@.last().i()),
        forall|x: int| #![trigger t.pend(x)] t.pend(x) == (s.pend(x) && x != s.stack@.last().i()),
        forall|y: int| #![trigger (s.e())(s.stack@.last().i(), y)] (s.e())(s.stack@.last().i(), y) ==> s.fin(y) || reach(s.e(), y, s.stack@.last().i()),
{
    let n = s.stack@.last().i();
    let l = t.stack@.len();
    lemma_finish_inv(s, t);
    assert(s.sk(l as int) == n);
    assert(walk(s.e(), n, n, 0));
    assert(reach(s.e(), s.sk(l as int), n));
    assert(t.e() == s.e());
    assert(forall|k: int| #![trigger t.sk(k)] #![trigger s.sk(k)] 0 <= k < l ==> t.sk(k) == s.sk(k));
    assert forall|y: int| #![trigger (s.e())(n, y)] (s.e())(n, y) implies s.fin(y) || reach(s.e(), y, n) by { lemma_finish_e(s, y); }
    assert forall|x: int| #![trigger t.pend(x)] t.pend(x) == (s.pend(x) && x != n) by {
        if s.pend(x) && x != n {
            let k = choose|k: int| 0 <= k < s.stack@.len() && reach(s.e(), #[trigger] s.sk(k), x);
            if k == l {
                let m = choose|m: nat| #[trigger] walk(s.e(), n, x, m);
                assert(t.fin(n) && !t.fin(x));
                lemma_closed(t, n, x, m);
            } else { assert(t.sk(k) == s.sk(k)); assert(reach(t.e(), t.sk(k), x)); }
        }
        if t.pend(x) { let k = choose|k: int| 0 <= k < l && reach(t.e(), #[trigger] t.sk(k), x); assert(s.sk(k) == t.sk(k)); assert(!t.fin(x)); }
    }
}
/// The highest place of a node.
proof fn lemma_high(s: PostOrder<'_>, j0: int)
    requires 0 <= j0 < s.stack@.len(),
    ensures exists|j: int| j0 <= j < s.stack@.len() && s.sk(j) == s.sk(j0) && s.high(j),
    decreases s.stack@.len() - j0,
{
    if !s.high(j0) {
        let j = choose|j: int| j0 < j < s.stack@.len() && #[trigger] s.sk(j) == s.sk(j0);
        lemma_high(s, j);
        let k = choose|k: int| j <= k < s.stack@.len() && s.sk(k) == s.sk(j) && s.high(k);
        assert(s.high(k));
    }
}
/// The top n is visited, and its neighbours ps are pushed.
proof fn lemma_visit(s: PostOrder<'_>, t: PostOrder<'_>, ps: Seq<NodeIndex>)
    requires
        s.inv(), s.stack@.len() > 0, !s.vis(s.stack@.last().i()),
        t.same(s), t.stack@ == s.stack@ + ps, t.finished.bits() == s.finished.bits(), t.visited.bits() == s.visited.bits().update(s.stack@.last().i(), true),
        forall|k: int| #![trigger ps[k]] 0 <= k < ps.len() ==> ps[k].wf() && s.graph.has_node(ps[k].i()) && !t.vis(ps[k].i()) && (s.e())(s.stack@.last().i(), ps[k].i()),
        forall|y: int| #![trigger (s.e())(s.stack@.last().i(), y)] (s.e())(s.stack@.last().i(), y) && !t.vis(y) ==> exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).i() == y,
    ensures t.inv(), forall|x: int| #![trigger t.pend(x)] #![trigger s.pend(x)] t.pend(x) == s.pend(x),
{
    let n = s.stack@.last().i();
    let l = s.stack@.len();
    let e = s.e();
    lemma_reach(e);
    assert(s.stack@[l - 1] == s.stack@.last());
    assert(s.sk(l - 1) == n && s.visited.bits().len() > n);
    assert(forall|k: int| #![trigger t.sk(k)] #![trigger s.sk(k)] 0 <= k < l ==> t.sk(k) == s.sk(k));
    assert forall|k: int| #![trigger t.sk(k)] l <= k < t.stack@.len() implies e(n, t.sk(k)) && !t.vis(t.sk(k)) by { assert(t.stack@[k] == ps[k - l]); }
    assert forall|k: int| #![trigger t.stack@[k]] 0 <= k < t.stack@.len() implies t.stack@[k].wf() && t.graph.has_node(t.stack@[k].i()) by { if k < l { assert(t.stack@[k] == s.stack@[k]); } else { assert(t.stack@[k] == ps[k - l]); } }
    assert(forall|x: int| #![trigger t.vis(x)] t.vis(x) == (s.vis(x) || x == n));
    assert(!s.fin(n));
    assert(forall|x: int| #![trigger t.act(x)] t.act(x) == (s.act(x) || x == n));
    assert forall|x: int| #![trigger t.act(x)] t.act(x) implies t.above(-1, x) by {
        if x == n { assert(t.sk(l - 1) == n); } else { assert(s.act(x)); let j = choose|j: int| -1 < j < s.stack@.len() && #[trigger] s.sk(j) == x; assert(t.sk(j) == x); }
    }
    assert forall|k: int| #![trigger t.high(k)] 0 <= k < t.stack@.len() && t.act(t.sk(k)) && t.high(k) implies k < l && s.high(k) && (t.sk(k) == n ==> k == l - 1) by {
        if k >= l { assert(!t.vis(t.sk(k))); }
        assert forall|j: int| #![trigger s.sk(j)] k < j < l implies s.sk(j) != s.sk(k) by { assert(t.sk(j) != t.sk(k)); }
        if k < l - 1 { assert(t.sk(l - 1) != t.sk(k)); }
    }
    assert forall|k: int, y: int| #![trigger (t.e())(t.sk(k), y)] 0 <= k < t.stack@.len() && t.act(t.sk(k)) && t.high(k) && (t.e())(t.sk(k), y) implies t.vis(y) || t.above(k, y) by {
        assert(k < l && e(s.sk(k), y));
        if !t.vis(y) {
            if t.sk(k) == n {
                assert(e(n, y));
                let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).i() == y;
                assert(t.stack@[l + i] == ps[i]); assert(t.sk(l + i) == y);
            } else { assert(s.act(s.sk(k))); let j = choose|j: int| k < j < s.stack@.len() && #[trigger] s.sk(j) == y; assert(t.sk(j) == y); }
        }
    }
    assert forall|k: int, j: int| #![trigger t.sk(k), t.sk(j)] 0 <= k < j < t.stack@.len() && t.act(t.sk(k)) && t.high(k) implies reach(t.e(), t.sk(k), t.sk(j)) by {
        assert(k < l && s.high(k));
        if j < l { assert(t.sk(k) != n); assert(s.act(s.sk(k))); assert(reach(e, s.sk(k), s.sk(j))); }
        else {
            assert(e(n, t.sk(j)));
            if t.sk(k) == n { assert(k == l - 1); } else { assert(s.act(s.sk(k))); assert(k < l - 1); assert(reach(e, s.sk(k), s.sk(l - 1))); }
        }
    }
    assert(t.e() == s.e());
    assert(forall|x: int| #![trigger t.fin(x)] t.fin(x) == s.fin(x));
    assert forall|x: int, y: int| #![trigger t.fin(x), (t.e())(x, y)] t.fin(x) && (t.e())(x, y) implies t.vis(y) by { assert(s.fin(x) && (s.e())(x, y)); }
    assert(t.inv());
    assert forall|x: int| #![trigger t.pend(x)] #![trigger s.pend(x)] t.pend(x) == s.pend(x) by {
        if s.pend(x) { let k = choose|k: int| 0 <= k < s.stack@.len() && reach(s.e(), #[trigger] s.sk(k), x); assert(t.sk(k) == s.sk(k)); }
        if t.pend(x) {
            let k = choose|k: int| 0 <= k < t.stack@.len() && reach(t.e(), #[trigger] t.sk(k), x);
            if k < l { assert(s.sk(k) == t.sk(k)); } else { assert(e(n, t.sk(k))); assert(reach(e, s.sk(l - 1), x)); }
        }
    }
}
proof fn lemma_keep_true<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    requires forall|x: T| #![trigger f(x)] f(x),
    ensures keep(s, f) == s,
    decreases s.len(),
{ if s.len() > 0 { lemma_keep_true(s.skip(1), f); assert(f(s[0])); assert(keep(s, f) =~= s); } else { assert(keep(s, f) =~= s); } }
/// A listed port is a port of its node.
proof fn lemma_dport(g: PortGraph, n: NodeIndex, d: Direction, j: int, p: PortIndex)
    requires g.wf(), n.wf(), g.has_node(n.i()), 0 <= j < g.dports(n.i(), d).len(), g.dports(n.i(), d).reverse()[j] == p,
    ensures p.wf(), g.has_port(p.i()), g.pnode(p.i()) == n.i(),
{
    hide(PortGraph::wf);
    lemma_pg_laws(g);
    let k = g.dports(n.i(), d).len() - 1 - j;
    assert(p == g.dports(n.i(), d)[k]);
    assert(ppn(g, p.i()) == n.i());
}
=== fn algorithms::post_order PostOrder::ignore_node
--- spec
ensures
    r == !fn1(old(self).node_filter)(node), fn1(final(self).node_filter) == fn1(old(self).node_filter), final(self).port_filter == old(self).port_filter,
    final(self).graph == old(self).graph, final(self).direction == old(self).direction, final(self).stack@ == old(self).stack@, final(self).visited == old(self).visited, final(self).finished == old(self).finished, final(self).nodes_seen == old(self).nodes_seen,
=== fn algorithms::post_order PostOrder::ignore_port
--- spec
ensures
    r == !fn2(old(self).port_filter)(node, port), fn2(final(self).port_filter) == fn2(old(self).port_filter), final(self).node_filter == old(self).node_filter,
    final(self).graph == old(self).graph, final(self).direction == old(self).direction, final(self).stack@ == old(self).stack@, final(self).visited == old(self).visited, final(self).finished == old(self).finished, final(self).nodes_seen == old(self).nodes_seen,
=== fn algorithms::post_order PostOrder::new ptype:source=impl+VIntoIter<It=VIt<NodeIndex>> eager
--- spec
requires graph.wf(), source.iok(), forall|k: int| #![trigger source.irest()[k]] 0 <= k < source.irest().len() ==> source.irest()[k].wf() && graph.has_node(source.irest()[k].i()),
ensures
    r.inv(), *r.graph == *graph, r.direction == direction, fn1(r.node_filter) == fn1(node_filter), fn2(r.port_filter) == fn2(port_filter), r.nodes_seen == 0,
    r.stack@ == source.irest().filter(fn1(node_filter)).reverse(),
    forall|x: int| #![trigger r.fin(x)] !r.fin(x),
--- hint start
let ghost nf0 = fn1(node_filter);
let ghost src0 = source.irest();
let ghost fn1_none = node_filter is None;
--- hint before loop0
let ghost __t: Seq<NodeIndex> = __out.rest();
--- loop 0
invariant
    __it0.ok(), node_filter.f() == nf0, __out.rest() + keep(__it0.rest(), nf0) =~= keep(src0, nf0),
ensures __it0.ok(), __it0.rest().len() == 0,
decreases __it0.rest().len(),
--- hint before reverse#0
proof {
    theorem_keep(src0, nf0);
    lemma_keep_all(src0, nf0);
    if fn1_none { assert(src0.filter(nf0) =~= src0) by { lemma_keep_true(src0, nf0); } }
}
--- hint end
proof {
    let t = keep(src0, nf0);
    assert(forall|x: int| #![trigger __ret.vis(x)] !__ret.vis(x));
    assert(forall|x: int| #![trigger __ret.fin(x)] !__ret.fin(x));
    assert(forall|x: int| #![trigger __ret.act(x)] !__ret.act(x));
    assert(source@ == t.reverse());
    assert forall|k: int| #![trigger __ret.stack@[k]] 0 <= k < __ret.stack@.len() implies __ret.stack@[k].wf() && graph.has_node(__ret.stack@[k].i()) by {
        assert(__ret.stack@[k] == t[t.len() - 1 - k]);
    }
    assert(__ret.graph.wf());
    assert(__ret.inv());
}
=== fn algorithms::post_order PostOrder::next of=Iterator
--- spec
requires old(self).inv(), old(self).nodes_seen < usize::MAX,
ensures
    final(self).inv(), final(self).same(*old(self)),
    match r {
        Some(n) => n.wf() && old(self).pend(n.i()) && old(self).graph.has_node(n.i())
            && (forall|x: int| #![trigger final(self).fin(x)] final(self).fin(x) == (old(self).fin(x) || x == n.i()))
            && (forall|x: int| #![trigger final(self).pend(x)] final(self).pend(x) == (old(self).pend(x) && x != n.i()))
            && (forall|y: int| #![trigger (old(self).e())(n.i(), y)] (old(self).e())(n.i(), y) ==> old(self).fin(y) || reach(old(self).e(), y, n.i())),
        None => (forall|x: int| #![trigger old(self).pend(x)] !old(self).pend(x)) && (forall|x: int| #![trigger final(self).fin(x)] final(self).fin(x) == old(self).fin(x)),
    },
--- hint start
let ghost s0 = *self;
--- loop 0
invariant
    self.inv(), self.same(s0), self.nodes_seen == s0.nodes_seen, s0.nodes_seen < usize::MAX, s0.inv(),
    forall|x: int| #![trigger self.fin(x)] self.fin(x) == s0.fin(x),
    forall|x: int| #![trigger self.pend(x)] self.pend(x) == s0.pend(x),
ensures self.inv(), self.same(s0), self.stack@.len() == 0, forall|x: int| #![trigger self.fin(x)] self.fin(x) == s0.fin(x), forall|x: int| #![trigger self.pend(x)] self.pend(x) == s0.pend(x),
decreases unset(self.visited.bits()), self.stack@.len(),
--- hint loop0.start
let ghost s1 = *self;
proof { assert(self.e() == s0.e()); }
--- hint before loop1
let ghost vb = self.visited.bits();
let ghost ps = Seq::<NodeIndex>::empty();
proof {
    assert(s1.stack@[s1.stack@.len() - 1] == next);
    assert(self.stack@ =~= s1.stack@ + ps);
    assert(__all1 == self.graph.dports(next.i(), self.direction).reverse());
}
--- loop 1
invariant
    s1.inv(), s1.stack@.len() > 0, next == s1.stack@.last(), next.wf(), self.graph.has_node(next.i()), self.same(s1), self.nodes_seen == s1.nodes_seen,
    vb == s1.visited.bits().update(next.i(), true), self.visited.bits() == vb, self.finished.bits() == s1.finished.bits(),
    self.stack@ == s1.stack@ + ps,
    __it1.ok(), __all1 == self.graph.dports(next.i(), self.direction).reverse(), __it1.rest().len() <= __all1.len(), __it1.rest() =~= __all1.skip(__all1.len() - __it1.rest().len()),
    forall|k: int| #![trigger ps[k]] 0 <= k < ps.len() ==> ps[k].wf() && self.graph.has_node(ps[k].i()) && !vb[ps[k].i()] && (s1.e())(next.i(), ps[k].i()),
    forall|j: int, y: int| #![trigger pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), __all1[j], y)] 0 <= j < __all1.len() - __it1.rest().len()
        && pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), __all1[j], y) && !self.vis(y) ==> exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).i() == y,
ensures __it1.ok(), __it1.rest().len() == 0,
decreases __it1.rest().len(),
--- hint loop1.start
let ghost s2 = *self;
let ghost ps1 = ps;
let ghost j1 = __all1.len() - __it1.rest().len() - 1;
--- hint before ignore_port#0
proof {
    assert(port == __all1[j1]);
    lemma_dport(*self.graph, next, self.direction, j1, port);
}
--- hint before push#0
proof {
    let y = link_node.i();
    assert(pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), port, y));
    let n = self.graph.dports(next.i(), self.direction).len();
    assert(__all1[j1] == self.graph.dports(next.i(), self.direction)[n - 1 - j1]);
    assert((s1.e())(next.i(), y));
    ps = ps.push(link_node);
    assert(ps[ps.len() - 1] == link_node);
}
--- hint after push#0
proof { assert(self.stack@ =~= s1.stack@ + ps); }
--- hint loop1.end
proof {
    assert forall|j: int, y: int| #![trigger pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), __all1[j], y)] 0 <= j < __all1.len() - __it1.rest().len()
        && pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), __all1[j], y) && !self.vis(y) implies exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).i() == y by {
        if j == j1 { assert(y == link_node.i()); assert(ps.last().i() == y); assert(ps[ps.len() - 1] == ps.last()); } else { assert(!s2.vis(y)); let k = choose|k: int| 0 <= k < ps1.len() && (#[trigger] ps1[k]).i() == y; assert(ps[k] == ps1[k]); }
    }
}
--- hint after loop1
proof {
    assert forall|y: int| #![trigger (s1.e())(next.i(), y)] (s1.e())(next.i(), y) && !self.vis(y) implies exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).i() == y by {
        let d = self.graph.dports(next.i(), self.direction);
        let k = choose|k: int| 0 <= k < d.len() && pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), #[trigger] d[k], y);
        assert(__all1[d.len() - 1 - k] == d[k]);
        assert(pgoes(*s1.graph, fn1(s1.node_filter), fn2(s1.port_filter), next.i(), __all1[d.len() - 1 - k], y));
    }
    lemma_visit(s1, *self, ps);
    lemma_unset(s1.visited.bits(), next.i());
    assert(forall|x: int| #![trigger self.fin(x)] self.fin(x) == s1.fin(x));
    assert(forall|x: int| #![trigger self.pend(x)] self.pend(x) == s1.pend(x));
}
--- hint before pop#0
proof { assert(s1.visited.bits().update(next.i(), true) =~= s1.visited.bits()); }
--- hint before return#0
proof { lemma_finish(s1, *self); }
--- hint before pop#1
proof { assert(s1.visited.bits().update(next.i(), true) =~= s1.visited.bits()); assert(s1.finished.bits().update(next.i(), true) =~= s1.finished.bits()); }
--- hint after pop#1
proof {
    lemma_pop(s1, *self);
    assert(forall|x: int| #![trigger self.fin(x)] self.fin(x) == s1.fin(x));
    assert(forall|x: int| #![trigger self.pend(x)] self.pend(x) == s1.pend(x));
}
--- hint end
proof {
    assert forall|x: int| #![trigger s0.pend(x)] !s0.pend(x) by { assert(!self.pend(x)); }
}
=== fn algorithms::post_order postorder bare impl= on= ptype:source=impl+VIntoIter<It=VIt<NodeIndex>>
--- spec
requires graph.wf(), source.iok(), forall|k: int| #![trigger source.irest()[k]] 0 <= k < source.irest().len() ==> source.irest()[k].wf() && graph.has_node(source.irest()[k].i()),
ensures
    r.inv(), *r.graph == *graph, r.direction == direction, fn1(r.node_filter) == (|n: NodeIndex| true), fn2(r.port_filter) == (|n: NodeIndex, p: PortIndex| true), r.nodes_seen == 0,
    r.stack@ == source.irest().filter(|n: NodeIndex| true).reverse(),
    forall|x: int| #![trigger r.fin(x)] !r.fin(x),
=== fn algorithms::post_order postorder_filtered bare impl= on= ptype:source=impl+VIntoIter<It=VIt<NodeIndex>> ptype:node_filter=VFn1<NodeIndex,bool> ptype:port_filter=VFn2<NodeIndex,PortIndex,bool>
--- spec
requires graph.wf(), source.iok(), forall|k: int| #![trigger source.irest()[k]] 0 <= k < source.irest().len() ==> source.irest()[k].wf() && graph.has_node(source.irest()[k].i()),
ensures
    r.inv(), *r.graph == *graph, r.direction == direction, fn1(r.node_filter) == node_filter.f(), fn2(r.port_filter) == port_filter.f(), r.nodes_seen == 0,
    r.stack@ == source.irest().filter(node_filter.f()).reverse(),
    forall|x: int| #![trigger r.fin(x)] !r.fin(x),
=== raw post_theorem
/// A freshly made traversal is to yield exactly the nodes that a source accepted by the filter reaches by accepted links.
/// (`next` yields the pending nodes one by one, each once, until none is left; the nodes a yielded one leads to
/// came before it, unless they lead back to it.)
proof fn theorem_postorder(r: PostOrder<'_>, src: Seq<NodeIndex>, f: spec_fn(NodeIndex) -> bool, x: int)
    requires r.inv(), r.stack@ == src.filter(f).reverse(), forall|x: int| #![trigger r.fin(x)] !r.fin(x),
    ensures r.pend(x) <==> exists|k: int| 0 <= k < src.len() && f(src[k]) && reach(r.e(), (#[trigger] src[k]).i(), x),
{
    let t = keep(src, f);
    theorem_keep(src, f);
    lemma_keep_all(src, f);
    if r.pend(x) {
        let j = choose|j: int| 0 <= j < r.stack@.len() && reach(r.e(), #[trigger] r.sk(j), x);
        assert(r.stack@[j] == t[t.len() - 1 - j]);
        let k = choose|k: int| 0 <= k < src.len() && src[k] == t[t.len() - 1 - j];
        assert(reach(r.e(), src[k].i(), x));
    }
    if exists|k: int| 0 <= k < src.len() && f(src[k]) && reach(r.e(), (#[trigger] src[k]).i(), x) {
        let k = choose|k: int| 0 <= k < src.len() && f(src[k]) && reach(r.e(), (#[trigger] src[k]).i(), x);
        lemma_keep_has(src, f, k);
        let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] == src[k];
        assert(r.stack@[t.len() - 1 - j] == src[k]);
        assert(r.sk(t.len() - 1 - j) == src[k].i());
        assert(!r.fin(x));
    }
}
proof fn lemma_keep_has<T>(s: Seq<T>, f: spec_fn(T) -> bool, k: int)
    requires 0 <= k < s.len(), f(s[k]),
    ensures exists|j: int| 0 <= j < keep(s, f).len() && #[trigger] keep(s, f)[j] == s[k],
    decreases s.len(),
{
    let a: Seq<T> = if f(s[0]) { seq![s[0]] } else { Seq::empty() };
    if k == 0 { assert(keep(s, f)[0] == s[0]); }
    else {
        let t = s.skip(1);
        assert(t[k - 1] == s[k]);
        lemma_keep_has(t, f, k - 1);
        let j = choose|j: int| 0 <= j < keep(t, f).len() && #[trigger] keep(t, f)[j] == t[k - 1];
        assert(keep(s, f)[j + a.len()] == s[k]);
    }
}
