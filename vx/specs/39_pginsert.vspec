=== default P=G02,G06
=== fn view LinkMut::link_offsets on=PortGraph assoc=LinkEndpoint:PortIndex
--- spec
requires old(self).wf(), offset_a.wf(), offset_b.wf(),
ensures
    final(self).wf(),
    ({
        let a = old(self).port_id(node_a.i(), offset_a.dir(), offset_a.i());
        let b = old(self).port_id(node_b.i(), offset_b.dir(), offset_b.i());
        &&& r.is_ok() <==> a >= 0 && b >= 0 && can_link(*old(self), a, b)
        &&& r matches Ok(x) ==> x.0.wf() && x.1.wf() && x.0.i() == a && x.1.i() == b && link_added(*old(self), *final(self), a, b)
        &&& r is Err ==> *final(self) == *old(self)
    }),
=== fn view LinkMut::link_nodes on=PortGraph assoc=LinkEndpoint:PortIndex
--- spec
requires old(self).wf(), from_output <= PortOffset::max_o(), to_input <= PortOffset::max_o(),
ensures
    final(self).wf(),
    ({
        let a = old(self).port_id(from.i(), Direction::Outgoing, from_output as int);
        let b = old(self).port_id(to.i(), Direction::Incoming, to_input as int);
        &&& r.is_ok() <==> a >= 0 && b >= 0 && can_link(*old(self), a, b)
        &&& r matches Ok(x) ==> x.0.wf() && x.1.wf() && x.0.i() == a && x.1.i() == b && link_added(*old(self), *final(self), a, b)
        &&& r is Err ==> *final(self) == *old(self)
    }),
=== raw hashmap
/// `std::collections::HashMap` as a mathematical map (assumed contracts; the keys' `Hash` and `Eq` are derived).
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VHashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> VHashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(a: [(K, V); 1]) -> (r: Self) ensures r@ == Map::<K, V>::empty().insert(a@[0].0, a@[0].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.dom().contains(*k), r matches Some(v) ==> v == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(*k), r matches Some(v) ==> *v == self@[*k],
    { unimplemented!() }
}
pub fn v_unwrap_or_default(x: Option<usize>) -> (r: usize) ensures r == (match x { Some(v) => v, None => 0 }) { match x { Some(v) => v, None => 0 } }
=== raw insert_spec
/// Node n of the source has been copied, to node rn(rk, n).
pub open spec fn ind(rk: Map<NodeIndex, NodeIndex>, n: int) -> bool { rk.dom().contains(NodeIndex::mk(n)) }
pub open spec fn rn(rk: Map<NodeIndex, NodeIndex>, n: int) -> int { rk[NodeIndex::mk(n)].i() }
/// The copy of port p of the source.
pub open spec fn img(g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, p: int) -> int { g.m(rn(rk, o.pnode(p))).at(o.pdir(p)) + o.offset_of(p) }
pub open spec fn node_copied(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, n: int) -> bool {
    let x = rn(rk, n);
    rk[NodeIndex::mk(n)].wf() && !g0.has_node(x) && g.has_node(x) && g.m(x).inc() == o.m(n).inc() && g.m(x).out() == o.m(n).out()
}
pub open spec fn port_copied(g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, p: int) -> bool {
    g.link(img(g, o, rk, p)) == (if done.contains(p) { img(g, o, rk, o.link(p)) } else { -1 })
}
pub open spec fn both_in(o: PortGraph, rk: Map<NodeIndex, NodeIndex>, p: int) -> bool {
    o.has_port(p) && o.link(p) >= 0 && ind(rk, o.pnode(p)) && ind(rk, o.pnode(o.link(p)))
}
/// g is g0 with a copy of the nodes of o in the domain of rk and of the links at the ports in `done`, and nothing else.
pub open spec fn copied(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>) -> bool {
    &&& forall|n: int| #![trigger ind(rk, n)] o.has_node(n) && ind(rk, n) ==> node_copied(g0, g, o, rk, n)
    &&& forall|n: int, k: int| #![trigger ind(rk, n), ind(rk, k)] o.has_node(n) && o.has_node(k) && ind(rk, n) && ind(rk, k) && n != k ==> rn(rk, n) != rn(rk, k)
    &&& forall|x: int| #![trigger g.has_node(x)] g.has_node(x) ==> g0.has_node(x) || exists|n: int| o.has_node(n) && #[trigger] ind(rk, n) && rn(rk, n) == x
    &&& forall|x: int| #![trigger g.same_node(g0, x)] #![trigger g0.has_node(x)] g0.has_node(x) ==> g.same_node(g0, x)
    &&& forall|p: int| #![trigger g.same_port(g0, p)] #![trigger g0.has_port(p)] g0.has_port(p) ==> g.same_port(g0, p)
    &&& forall|p: int| #![trigger port_copied(g, o, rk, done, p)] o.has_port(p) && ind(rk, o.pnode(p)) ==> port_copied(g, o, rk, done, p)
    &&& forall|p: int| #![trigger done.contains(p)] done.contains(p) ==> both_in(o, rk, p) && done.contains(o.link(p))
}
pub open spec fn ptot(o: PortGraph, s: Seq<NodeIndex>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { o.m(s[0].i()).tot() + ptot(o, s.skip(1)) } }
pub proof fn lemma_ptot(o: PortGraph, s: Seq<NodeIndex>)
    requires o.wf(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> o.has_node(s[k].i()),
    ensures ptot(o, s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_node(o, s[0].i()); assert forall|k: int| #![trigger s.skip(1)[k]] 0 <= k < s.skip(1).len() implies o.has_node(s.skip(1)[k].i()) by { assert(s.skip(1)[k] == s[k + 1]); } lemma_ptot(o, s.skip(1)); } }
pub proof fn lemma_link_sym(o: PortGraph, p: int)
    requires o.wf(), o.link(p) >= 0,
    ensures o.has_port(o.link(p)), o.link(o.link(p)) == p, o.pdir(o.link(p)) != o.pdir(p),
{ assert(link_at(o.port_link@, o.port_meta@, p)); lemma_port(o, p); }
pub proof fn lemma_img(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, p: int)
    requires g0.wf(), g.wf(), o.wf(), copied(g0, g, o, rk, done), o.has_port(p), ind(rk, o.pnode(p)),
    ensures
        g.has_port(img(g, o, rk, p)), !g0.has_port(img(g, o, rk, p)), g.pnode(img(g, o, rk, p)) == rn(rk, o.pnode(p)), g.pdir(img(g, o, rk, p)) == o.pdir(p),
        g.offset_of(img(g, o, rk, p)) == o.offset_of(p), g.port_id(rn(rk, o.pnode(p)), o.pdir(p), o.offset_of(p)) == img(g, o, rk, p), img(g, o, rk, p) >= 0,
        node_copied(g0, g, o, rk, o.pnode(p)), o.has_node(o.pnode(p)),
{
    lemma_port(o, p);
    let n = o.pnode(p); let x = rn(rk, n); let a = img(g, o, rk, p); let d = o.pdir(p);
    assert(node_copied(g0, g, o, rk, n));
    lemma_node(g, x);
    assert(g.m(x).num(d) == o.m(n).num(d));
    assert(g.m(x).at(d) <= a < g.m(x).at(d) + g.m(x).num(d));
    let pa = g.pnode(a); assert(pa == x); assert(g.has_port(a));
    if g0.has_port(a) { lemma_port(g0, a); assert(g.same_port(g0, a)); }
}
pub proof fn lemma_img_inj(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, p: int, q: int)
    requires g0.wf(), g.wf(), o.wf(), copied(g0, g, o, rk, done), o.has_port(p), ind(rk, o.pnode(p)), o.has_port(q), ind(rk, o.pnode(q)), img(g, o, rk, p) == img(g, o, rk, q),
    ensures p == q,
{
    lemma_img(g0, g, o, rk, done, p); lemma_img(g0, g, o, rk, done, q); lemma_port(o, p); lemma_port(o, q);
    assert(rn(rk, o.pnode(p)) == rn(rk, o.pnode(q)));
    assert(o.pnode(p) == o.pnode(q)) by { if o.pnode(p) != o.pnode(q) { assert(ind(rk, o.pnode(p)) && ind(rk, o.pnode(q))); } }
}
pub proof fn lemma_copy_none(g0: PortGraph, g: PortGraph, o: PortGraph)
    requires g0.wf(), g.node_meta@ == g0.node_meta@, g.port_meta@ == g0.port_meta@, g.port_link@ == g0.port_link@,
    ensures copied(g0, g, o, Map::empty(), Set::empty()), keys_are(Map::empty(), o.nodes(), 0), all_done(o, Map::empty(), Set::empty()),
{}
pub proof fn lemma_copy_node(g0: PortGraph, g1: PortGraph, g2: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: NodeIndex, x: NodeIndex)
    requires
        g0.wf(), g1.wf(), g2.wf(), o.wf(), copied(g0, g1, o, rk, done), n.wf(), x.wf(), o.has_node(n.i()), !ind(rk, n.i()),
        added(g1, g2, x.i(), o.m(n.i()).inc(), o.m(n.i()).out()),
    ensures copied(g0, g2, o, rk.insert(n, x), done),
{
    let k = rk.insert(n, x); let ni = n.i();
    assert(NodeIndex::mk(ni) == n);
    assert forall|m: int| o.has_node(m) implies (#[trigger] ind(k, m) <==> m == ni || ind(rk, m)) && (m != ni ==> k[NodeIndex::mk(m)] == rk[NodeIndex::mk(m)]) by { lemma_node(o, m); assert(NodeIndex::mk(m).i() == m); }
    assert forall|m: int| #![trigger ind(k, m)] o.has_node(m) && ind(k, m) implies node_copied(g0, g2, o, k, m) by {
        if m != ni { assert(ind(rk, m)); assert(node_copied(g0, g1, o, rk, m)); assert(g2.same_node(g1, rn(rk, m))); }
        else if g0.has_node(x.i()) { assert(g1.same_node(g0, x.i())); }
    }
    assert forall|m: int, j: int| #![trigger ind(k, m), ind(k, j)] o.has_node(m) && o.has_node(j) && ind(k, m) && ind(k, j) && m != j implies rn(k, m) != rn(k, j) by {
        if m != ni { assert(ind(rk, m)); assert(node_copied(g0, g1, o, rk, m)); }
        if j != ni { assert(ind(rk, j)); assert(node_copied(g0, g1, o, rk, j)); }
    }
    assert forall|y: int| #![trigger g2.has_node(y)] g2.has_node(y) implies g0.has_node(y) || exists|m: int| o.has_node(m) && #[trigger] ind(k, m) && rn(k, m) == y by {
        if y == x.i() { assert(ind(k, ni) && rn(k, ni) == y); }
        else {
            assert(g2.same_node(g1, y));
            if !g0.has_node(y) { let m = choose|m: int| o.has_node(m) && #[trigger] ind(rk, m) && rn(rk, m) == y; assert(ind(k, m) && rn(k, m) == y); }
        }
    }
    assert forall|y: int| #![trigger g2.same_node(g0, y)] #![trigger g0.has_node(y)] g0.has_node(y) implies g2.same_node(g0, y) by { assert(g1.same_node(g0, y)); assert(g2.same_node(g1, y)); }
    assert forall|p: int| #![trigger g2.same_port(g0, p)] #![trigger g0.has_port(p)] g0.has_port(p) implies g2.same_port(g0, p) by { assert(g1.same_port(g0, p)); assert(g2.has_port(p) || !g2.owns(x.i(), p)); assert(g2.same_port(g1, p)); }
    assert forall|p: int| #![trigger port_copied(g2, o, k, done, p)] o.has_port(p) && ind(k, o.pnode(p)) implies port_copied(g2, o, k, done, p) by {
        lemma_port(o, p);
        let m = o.pnode(p);
        if m == ni {
            assert(!done.contains(p));
            lemma_node(g2, x.i());
            let a = img(g2, o, k, p); let d = o.pdir(p);
            assert(g2.m(x.i()).at(d) <= a < g2.m(x.i()).at(d) + g2.m(x.i()).num(d));
            assert(g2.pnode(a) == x.i());
            assert(g2.owns(x.i(), a));
        } else {
            assert(ind(rk, m));
            assert(port_copied(g1, o, rk, done, p));
            lemma_img_kept(g0, g1, g2, o, rk, done, n, x, p);
            if done.contains(p) { lemma_link_sym(o, p); lemma_img_kept(g0, g1, g2, o, rk, done, n, x, o.link(p)); }
        }
    }
    assert forall|p: int| #![trigger done.contains(p)] done.contains(p) implies both_in(o, k, p) && done.contains(o.link(p)) by { assert(both_in(o, rk, p)); lemma_port(o, p); lemma_link_sym(o, p); lemma_port(o, o.link(p)); }
}
pub proof fn lemma_img_kept(g0: PortGraph, g1: PortGraph, g2: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: NodeIndex, x: NodeIndex, p: int)
    requires
        g0.wf(), g1.wf(), g2.wf(), o.wf(), copied(g0, g1, o, rk, done), n.wf(), x.wf(), o.has_node(n.i()), !ind(rk, n.i()),
        added(g1, g2, x.i(), o.m(n.i()).inc(), o.m(n.i()).out()), o.has_port(p), ind(rk, o.pnode(p)),
    ensures img(g2, o, rk.insert(n, x), p) == img(g1, o, rk, p), g2.link(img(g1, o, rk, p)) == g1.link(img(g1, o, rk, p)),
{
    let k = rk.insert(n, x); let m = o.pnode(p);
    lemma_port(o, p);
    lemma_img(g0, g1, o, rk, done, p);
    let a = img(g1, o, rk, p);
    assert(NodeIndex::mk(n.i()) == n && NodeIndex::mk(m).i() == m);
    assert(g2.same_node(g1, rn(rk, m)));
    assert(g2.has_port(a) || !g2.owns(x.i(), a));
    assert(g2.same_port(g1, a));
}
pub proof fn lemma_copy_link(g0: PortGraph, g1: PortGraph, g2: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, p: int)
    requires
        g0.wf(), g1.wf(), g2.wf(), o.wf(), copied(g0, g1, o, rk, done), both_in(o, rk, p), !done.contains(p),
        link_added(g1, g2, img(g1, o, rk, p), img(g1, o, rk, o.link(p))),
    ensures copied(g0, g2, o, rk, done.insert(p).insert(o.link(p))), g2.node_meta@.len() == g1.node_meta@.len(), g2.port_meta@.len() == g1.port_meta@.len(),
{
    let q = o.link(p); let dn = done.insert(p).insert(q);
    lemma_link_sym(o, p);
    let a = img(g1, o, rk, p); let b = img(g1, o, rk, q);
    lemma_img(g0, g1, o, rk, done, p); lemma_img(g0, g1, o, rk, done, q);
    if done.contains(q) { assert(done.contains(o.link(q))); }
    assert forall|n: int| #![trigger ind(rk, n)] o.has_node(n) && ind(rk, n) implies node_copied(g0, g2, o, rk, n) by { assert(node_copied(g0, g1, o, rk, n)); }
    assert forall|x: int| #![trigger g2.has_node(x)] g2.has_node(x) implies g0.has_node(x) || exists|n: int| o.has_node(n) && #[trigger] ind(rk, n) && rn(rk, n) == x by { assert(g1.has_node(x)); }
    assert forall|x: int| #![trigger g2.same_node(g0, x)] #![trigger g0.has_node(x)] g0.has_node(x) implies g2.same_node(g0, x) by { assert(g1.same_node(g0, x)); }
    assert forall|r: int| #![trigger g2.same_port(g0, r)] #![trigger g0.has_port(r)] g0.has_port(r) implies g2.same_port(g0, r) by { assert(g1.same_port(g0, r)); assert(r != a && r != b); assert(g2.link(r) == g1.link(r)); }
    assert forall|r: int| #![trigger port_copied(g2, o, rk, dn, r)] o.has_port(r) && ind(rk, o.pnode(r)) implies port_copied(g2, o, rk, dn, r) by {
        assert(port_copied(g1, o, rk, done, r));
        assert(img(g2, o, rk, r) == img(g1, o, rk, r));
        if r != p && r != q {
            if img(g1, o, rk, r) == a { lemma_img_inj(g0, g1, o, rk, done, r, p); }
            if img(g1, o, rk, r) == b { lemma_img_inj(g0, g1, o, rk, done, r, q); }
            assert(g2.link(img(g1, o, rk, r)) == g1.link(img(g1, o, rk, r)));
        }
    }
    assert forall|r: int| #![trigger dn.contains(r)] dn.contains(r) implies both_in(o, rk, r) && dn.contains(o.link(r)) by { if r != p && r != q { assert(done.contains(r)); } }
}
/// The result of inserting o into g0: an isomorphic copy, and nothing else changed.
pub open spec fn inserted(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>) -> bool {
    &&& forall|n: int| #![trigger ind(rk, n)] #![trigger o.has_node(n)] o.has_node(n) ==> ind(rk, n) && node_copied(g0, g, o, rk, n)
    &&& forall|k: NodeIndex| #![trigger rk.dom().contains(k)] rk.dom().contains(k) ==> k.wf() && o.has_node(k.i())
    &&& forall|n: int, k: int| #![trigger rn(rk, n), rn(rk, k)] o.has_node(n) && o.has_node(k) && n != k ==> rn(rk, n) != rn(rk, k)
    &&& forall|x: int| #![trigger g.has_node(x)] g.has_node(x) ==> g0.has_node(x) || exists|n: int| o.has_node(n) && #[trigger] rn(rk, n) == x
    &&& forall|x: int| #![trigger g.same_node(g0, x)] #![trigger g0.has_node(x)] g0.has_node(x) ==> g.same_node(g0, x)
    &&& forall|p: int| #![trigger g.same_port(g0, p)] #![trigger g0.has_port(p)] g0.has_port(p) ==> g.same_port(g0, p)
    &&& forall|p: int| #![trigger img(g, o, rk, p)] o.has_port(p) ==> g.has_port(img(g, o, rk, p)) && g.link(img(g, o, rk, p)) == (if o.link(p) >= 0 { img(g, o, rk, o.link(p)) } else { -1 })
}
pub proof fn lemma_inserted(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>)
    requires
        g0.wf(), g.wf(), o.wf(), copied(g0, g, o, rk, done), forall|n: int| #![trigger o.has_node(n)] o.has_node(n) ==> ind(rk, n),
        forall|p: int| #![trigger done.contains(p)] both_in(o, rk, p) ==> done.contains(p),
        forall|k: NodeIndex| #![trigger rk.dom().contains(k)] rk.dom().contains(k) ==> k.wf() && o.has_node(k.i()),
    ensures inserted(g0, g, o, rk),
{
    assert forall|n: int| #![trigger ind(rk, n)] #![trigger o.has_node(n)] o.has_node(n) implies ind(rk, n) && node_copied(g0, g, o, rk, n) by { assert(ind(rk, n)); }
    assert forall|p: int| #![trigger img(g, o, rk, p)] o.has_port(p) implies g.has_port(img(g, o, rk, p)) && g.link(img(g, o, rk, p)) == (if o.link(p) >= 0 { img(g, o, rk, o.link(p)) } else { -1 }) by {
        lemma_port(o, p);
        lemma_img(g0, g, o, rk, done, p);
        assert(port_copied(g, o, rk, done, p));
        if o.link(p) >= 0 { lemma_link_sym(o, p); lemma_port(o, o.link(p)); assert(both_in(o, rk, p)); assert(done.contains(p)); }
        else if done.contains(p) { assert(both_in(o, rk, p)); }
    }
    assert forall|n: int, k: int| #![trigger rn(rk, n), rn(rk, k)] o.has_node(n) && o.has_node(k) && n != k implies rn(rk, n) != rn(rk, k) by { assert(ind(rk, n) && ind(rk, k)); }
    assert forall|x: int| #![trigger g.has_node(x)] g.has_node(x) implies g0.has_node(x) || exists|n: int| o.has_node(n) && #[trigger] rn(rk, n) == x by {
        if !g0.has_node(x) { let n = choose|n: int| o.has_node(n) && #[trigger] ind(rk, n) && rn(rk, n) == x; assert(rn(rk, n) == x); }
    }
}
/// Within one node: which of its links are done.
pub open spec fn node_links_done(o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: int, s: Seq<(PortIndex, PortIndex)>, j: int) -> bool {
    &&& forall|p: int| #![trigger done.contains(p)] both_in(o, rk, p) && o.pnode(p) != n && o.pnode(o.link(p)) != n ==> done.contains(p)
    &&& forall|i: int| #![trigger s[i]] 0 <= i < j && ind(rk, o.pnode(s[i].1.i())) ==> done.contains(s[i].0.i()) && done.contains(s[i].1.i())
    &&& forall|p: int| #![trigger done.contains(p)] done.contains(p) && (o.pnode(p) == n || o.pnode(o.link(p)) == n) ==> exists|i: int| 0 <= i < j && (p == (#[trigger] s[i]).0.i() || p == s[i].1.i())
}
pub proof fn lemma_links_step(o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: int, j: int)
    requires o.wf(), node_links_done(o, rk, done, n, o.alinks(n), j), 0 <= j < o.alinks(n).len(), ind(rk, n),
    ensures
        !done.contains(o.alinks(n)[j].0.i()),
        ind(rk, o.pnode(o.alinks(n)[j].1.i())) ==> both_in(o, rk, o.alinks(n)[j].0.i()) && node_links_done(o, rk, done.insert(o.alinks(n)[j].0.i()).insert(o.alinks(n)[j].1.i()), n, o.alinks(n), j + 1),
        !ind(rk, o.pnode(o.alinks(n)[j].1.i())) ==> node_links_done(o, rk, done, n, o.alinks(n), j + 1),
{
    let s = o.alinks(n);
    theorem_all_links(o, n);
    theorem_links_once(o, n, Direction::Incoming);
    let p = s[j].0.i(); let q = s[j].1.i();
    assert(o.pnode(p) == n && o.link(p) == q);
    lemma_link_sym(o, p);
    if done.contains(p) {
        let i = choose|i: int| 0 <= i < j && (p == (#[trigger] s[i]).0.i() || p == s[i].1.i());
        assert(false);
    }
    if ind(rk, o.pnode(q)) {
        let dn = done.insert(p).insert(q);
        assert forall|r: int| #![trigger dn.contains(r)] dn.contains(r) && (o.pnode(r) == n || o.pnode(o.link(r)) == n) implies exists|i: int| 0 <= i < j + 1 && (r == (#[trigger] s[i]).0.i() || r == s[i].1.i()) by {
            if r == p || r == q { assert(r == s[j].0.i() || r == s[j].1.i()); }
            else { assert(done.contains(r)); let i = choose|i: int| 0 <= i < j && (r == (#[trigger] s[i]).0.i() || r == s[i].1.i()); assert(r == s[i].0.i() || r == s[i].1.i()); }
        }
    } else {
        assert forall|r: int| #![trigger done.contains(r)] done.contains(r) && (o.pnode(r) == n || o.pnode(o.link(r)) == n) implies exists|i: int| 0 <= i < j + 1 && (r == (#[trigger] s[i]).0.i() || r == s[i].1.i()) by {
            let i = choose|i: int| 0 <= i < j && (r == (#[trigger] s[i]).0.i() || r == s[i].1.i()); assert(r == s[i].0.i() || r == s[i].1.i());
        }
    }
}
pub proof fn lemma_links_done(o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: int)
    requires o.wf(), node_links_done(o, rk, done, n, o.alinks(n), o.alinks(n).len() as int),
    ensures forall|p: int| #![trigger done.contains(p)] both_in(o, rk, p) ==> done.contains(p),
{
    let s = o.alinks(n);
    theorem_all_links(o, n);
    assert forall|p: int| #![trigger done.contains(p)] both_in(o, rk, p) implies done.contains(p) by {
        lemma_link_sym(o, p); lemma_port(o, p); lemma_port(o, o.link(p));
        let q = o.link(p);
        if o.pnode(p) == n || o.pnode(q) == n {
            // the end that is listed
            let (a, b) = if o.pnode(p) == n && (o.pnode(q) != n || o.pdir(p) == Direction::Outgoing) { (p, q) } else { (q, p) };
            assert(o.link(a) == b);
            assert(s.contains((PortIndex::mk(a), PortIndex::mk(b))));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (PortIndex::mk(a), PortIndex::mk(b));
            assert(s[i].0.i() == a && s[i].1.i() == b);
        }
    }
}
/// The copied nodes are the first i of the source.
pub open spec fn keys_are(rk: Map<NodeIndex, NodeIndex>, ns: Seq<NodeIndex>, i: int) -> bool {
    &&& forall|k: NodeIndex| #![trigger rk.dom().contains(k)] rk.dom().contains(k) ==> exists|j: int| 0 <= j < i && #[trigger] ns[j] == k
    &&& forall|j: int| #![trigger ns[j]] 0 <= j < i ==> rk.dom().contains(ns[j])
}
pub open spec fn all_done(o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>) -> bool {
    forall|p: int| #![trigger done.contains(p)] both_in(o, rk, p) ==> done.contains(p)
}
pub proof fn lemma_keys_next(o: PortGraph, rk: Map<NodeIndex, NodeIndex>, i: int)
    requires o.wf(), keys_are(rk, o.nodes(), i), 0 <= i < o.nodes().len(),
    ensures
        o.has_node(o.nodes()[i].i()), o.nodes()[i].wf(), !ind(rk, o.nodes()[i].i()), o.m(o.nodes()[i].i()).wf(),
        o.m(o.nodes()[i].i()).inc() <= PortOffset::max_o(), o.m(o.nodes()[i].i()).out() <= PortOffset::max_o(),
        ptot(o, o.nodes().skip(i)) == o.m(o.nodes()[i].i()).tot() + ptot(o, o.nodes().skip(i + 1)),
        ptot(o, o.nodes().skip(i + 1)) >= 0,
        NodeIndex::mk(o.nodes()[i].i()) == o.nodes()[i],
        forall|x: NodeIndex| #![trigger rk.insert(o.nodes()[i], x)] keys_are(rk.insert(o.nodes()[i], x), o.nodes(), i + 1),
{
    let ns = o.nodes(); let n = ns[i];
    theorem_nodes(o.node_meta@, 0, o.node_meta@.len() as int);
    lemma_node(o, n.i());
    assert(NodeIndex::mk(n.i()) == n);
    if rk.dom().contains(n) { let j = choose|j: int| 0 <= j < i && #[trigger] ns[j] == n; assert(ns[j].i() < ns[i].i()); }
    assert forall|k: int| #![trigger ns.skip(i + 1)[k]] 0 <= k < ns.skip(i + 1).len() implies o.has_node(ns.skip(i + 1)[k].i()) by { assert(ns.skip(i + 1)[k] == ns[i + 1 + k]); }
    lemma_ptot(o, ns.skip(i + 1));
    assert(ns.skip(i).skip(1) =~= ns.skip(i + 1)); assert(ns.skip(i)[0] == n);
    assert forall|x: NodeIndex| #![trigger rk.insert(n, x)] keys_are(rk.insert(n, x), ns, i + 1) by {
        let r = rk.insert(n, x);
        assert forall|k: NodeIndex| #![trigger r.dom().contains(k)] r.dom().contains(k) implies exists|j: int| 0 <= j < i + 1 && #[trigger] ns[j] == k by {
            if k == n { assert(ns[i] == k); } else { assert(rk.dom().contains(k)); let j = choose|j: int| 0 <= j < i && #[trigger] ns[j] == k; assert(ns[j] == k); }
        }
        assert forall|j: int| #![trigger ns[j]] 0 <= j < i + 1 implies r.dom().contains(ns[j]) by { if j < i { assert(rk.dom().contains(ns[j])); } }
    }
}
pub proof fn lemma_keys_end(o: PortGraph, rk: Map<NodeIndex, NodeIndex>)
    requires o.wf(), keys_are(rk, o.nodes(), o.nodes().len() as int),
    ensures
        forall|n: int| #![trigger o.has_node(n)] o.has_node(n) ==> ind(rk, n),
        forall|k: NodeIndex| #![trigger rk.dom().contains(k)] rk.dom().contains(k) ==> k.wf() && o.has_node(k.i()),
{
    let ns = o.nodes();
    theorem_nodes(o.node_meta@, 0, o.node_meta@.len() as int);
    assert forall|x: int| #![trigger o.has_node(x)] o.has_node(x) implies ind(rk, x) by {
        lemma_node(o, x);
        assert(live(o.node_meta@, x)); assert(ns.contains(NodeIndex::mk(x)));
        let j = choose|j: int| 0 <= j < ns.len() && ns[j] == NodeIndex::mk(x); assert(rk.dom().contains(ns[j]));
    }
    assert forall|k: NodeIndex| #![trigger rk.dom().contains(k)] rk.dom().contains(k) implies k.wf() && o.has_node(k.i()) by {
        let j = choose|j: int| 0 <= j < ns.len() && #[trigger] ns[j] == k; assert(ns[j].wf());
    }
}
pub proof fn lemma_links_start(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: NodeIndex, x: NodeIndex)
    requires o.wf(), copied(g0, g, o, rk, done), all_done(o, rk, done), n.wf(), o.has_node(n.i()), !ind(rk, n.i()),
    ensures node_links_done(o, rk.insert(n, x), done, n.i(), o.alinks(n.i()), 0), ind(rk.insert(n, x), n.i()), rk.insert(n, x)[NodeIndex::mk(n.i())] == x,
{
    let ni = n.i(); let k = rk.insert(n, x);
    assert(NodeIndex::mk(ni) == n);
    assert forall|p: int| #![trigger done.contains(p)] both_in(o, k, p) && o.pnode(p) != ni && o.pnode(o.link(p)) != ni implies done.contains(p) by {
        lemma_port(o, p); lemma_link_sym(o, p); lemma_port(o, o.link(p));
        assert(NodeIndex::mk(o.pnode(p)).i() == o.pnode(p)); assert(NodeIndex::mk(o.pnode(o.link(p))).i() == o.pnode(o.link(p)));
        assert(both_in(o, rk, p));
    }
    assert forall|p: int| #![trigger done.contains(p)] done.contains(p) implies o.pnode(p) != ni && o.pnode(o.link(p)) != ni by { assert(both_in(o, rk, p)); }
}
/// The facts about the link about to be copied.
pub proof fn lemma_link_next(g0: PortGraph, g: PortGraph, o: PortGraph, rk: Map<NodeIndex, NodeIndex>, done: Set<int>, n: int, j: int)
    requires g0.wf(), g.wf(), o.wf(), copied(g0, g, o, rk, done), ind(rk, n), o.has_node(n), node_links_done(o, rk, done, n, o.alinks(n), j), 0 <= j < o.alinks(n).len(),
    ensures
        ({
            let (p, q) = (o.alinks(n)[j].0.i(), o.alinks(n)[j].1.i());
            let (a, b) = (img(g, o, rk, p), img(g, o, rk, q));
            let dn = done.insert(p).insert(q);
            &&& o.alinks(n)[j].0.wf() && o.alinks(n)[j].1.wf()
            &&& o.has_port(p) && o.has_port(q) && o.pnode(p) == n && o.link(p) == q && o.has_node(o.pnode(q))
            &&& !ind(rk, o.pnode(q)) ==> node_links_done(o, rk, done, n, o.alinks(n), j + 1)
            &&& ind(rk, o.pnode(q)) ==> {
                &&& both_in(o, rk, p) && !done.contains(p)
                &&& g.port_id(rn(rk, n), o.pdir(p), o.offset_of(p)) == a && a >= 0
                &&& g.port_id(rn(rk, o.pnode(q)), o.pdir(q), o.offset_of(q)) == b && b >= 0
                &&& can_link(g, a, b)
                &&& node_links_done(o, rk, dn, n, o.alinks(n), j + 1)
            }
        }),
{
    theorem_all_links(o, n);
    let (p, q) = (o.alinks(n)[j].0.i(), o.alinks(n)[j].1.i());
    lemma_links_step(o, rk, done, n, j);
    lemma_port(o, p); lemma_port(o, q); lemma_link_sym(o, p);
    if ind(rk, o.pnode(q)) {
        lemma_img(g0, g, o, rk, done, p); lemma_img(g0, g, o, rk, done, q);
        assert(port_copied(g, o, rk, done, p)); assert(port_copied(g, o, rk, done, q));
        if done.contains(q) { assert(done.contains(o.link(q))); }
    }
}
=== fn view LinkMut::insert_graph on=PortGraph isolate P=G06 rename:old=node_ ptype:other=&PortGraph
--- spec
requires
    old(self).wf(), other.wf(),
    old(self).node_meta@.len() + other.nodes().len() <= max_ix() + 1,
    old(self).port_meta@.len() + ptot(*other, other.nodes()) <= max_ix() + 1,
ensures
    final(self).wf(),
    r matches Ok(rk) && inserted(*old(self), *final(self), *other, rk@),
--- hint start
hide(copied); hide(keys_are); hide(all_done); hide(node_links_done); hide(inserted); hide(ptot); hide(added); hide(link_added); hide(can_link); hide(PortGraph::wf); hide(img); hide(both_in); hide(PortGraph::has_port);
let ghost g0 = *self;
let ghost o = *other;
let ghost ns = o.nodes();
let ghost mut done: Set<int> = Set::empty();
--- hint before loop0
proof { lemma_copy_none(g0, *self, o); assert(__all0.skip(0) =~= __all0); }
--- loop 0
invariant
    __it0.ok(), self.wf(), g0.wf(), o.wf(), o == *other, ns == o.nodes(), __all0 == ns,
    __it0.rest().len() <= ns.len(), __it0.rest() == ns.skip(ns.len() - __it0.rest().len()),
    copied(g0, *self, o, rekeys@, done), all_done(o, rekeys@, done),
    keys_are(rekeys@, ns, ns.len() - __it0.rest().len()),
    self.node_meta@.len() + __it0.rest().len() <= max_ix() + 1,
    self.port_meta@.len() + ptot(o, __it0.rest()) <= max_ix() + 1,
ensures __it0.rest().len() == 0,
decreases __it0.rest().len(),
--- hint loop0.start
let ghost n = node_.i();
let ghost i0 = ns.len() - __it0.rest().len() - 1;
let ghost rk0 = rekeys@;
let ghost g1 = *self;
proof {
    assert(node_ == ns[i0]);
    assert(__it0.rest() =~= ns.skip(i0 + 1));
    lemma_keys_next(o, rk0, i0);
}
--- hint after insert#0
proof {
    lemma_copy_node(g0, g1, *self, o, rk0, done, node_, new);
    lemma_links_start(g0, g1, o, rk0, done, node_, new);
    assert(rekeys@ == rk0.insert(node_, new));
}
--- loop 1
invariant
    __it1.ok(), self.wf(), g0.wf(), o.wf(), o == *other, __all1 == o.alinks(n), __it1.rest().len() <= __all1.len(), __it1.rest() == __all1.skip(__all1.len() - __it1.rest().len()),
    copied(g0, *self, o, rekeys@, done), rekeys@ == rk0.insert(node_, new), ind(rekeys@, n), rekeys@[NodeIndex::mk(n)] == new, node_.wf(), n == node_.i(), o.has_node(n), new.wf(),
    node_links_done(o, rekeys@, done, n, o.alinks(n), __all1.len() - __it1.rest().len()),
    self.node_meta@.len() + ns.len() - i0 - 1 <= max_ix() + 1,
    self.port_meta@.len() + ptot(o, ns.skip(i0 + 1)) <= max_ix() + 1,
ensures __it1.rest().len() == 0,
decreases __it1.rest().len(),
--- hint before loop1
proof { assert(__all1.skip(0) =~= __all1); }
--- hint loop1.start
let ghost j0 = __all1.len() - __it1.rest().len() - 1;
let ghost g2 = *self;
proof {
    assert((from, to) == __all1[j0]);
    assert(__it1.rest() =~= __all1.skip(j0 + 1));
    lemma_link_next(g0, g2, o, rekeys@, done, n, j0);
}
--- hint before link_offsets#0
proof { assert(new.i() == rn(rekeys@, n)); assert(other_node.i() == rn(rekeys@, o.pnode(to.i()))); }
--- hint after link_offsets#0
proof { lemma_copy_link(g0, g2, *self, o, rekeys@, done, from.i()); done = done.insert(from.i()).insert(to.i()); }
--- hint after loop1
proof { lemma_links_done(o, rekeys@, done, n); assert(all_done(o, rekeys@, done)) by { reveal(all_done); } }
--- hint end
proof {
    lemma_keys_end(o, rekeys@);
    assert(all_done(o, rekeys@, done)); reveal(all_done);
    lemma_inserted(g0, *self, o, rekeys@, done);
}
