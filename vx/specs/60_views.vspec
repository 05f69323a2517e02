=== default P=V01,V02,V03
=== raw view_list
/// The items of a lazy adapter chain.
#[verifier::reject_recursive_types(T)]
pub struct VList<T> { pub v: VIt<T> }
impl<T> VIter for VList<T> {
    type Item = T;
    open spec fn rest(self) -> Seq<T> { self.v.rest() }
    open spec fn ok(self) -> bool { true }
    fn v_next(&mut self) -> (r: Option<T>) { self.v.v_next() }
}
impl<T> VIntoIter for VList<T> {
    type It = VList<T>;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<T> { self.rest() }
    open spec fn ieq(self, r: VList<T>) -> bool { r == self }
    fn v_into_iter(self) -> (r: VList<T>) { self }
}
impl<T> VList<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.rest() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self).rest() == old(self).rest().push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
}
/// The items of a sequence of references.
pub open spec fn drf<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
/// `FromIterator`
pub trait VFromIter<T>: Sized {
    spec fn made(self, s: Seq<T>) -> bool;
    fn v_from(l: VIt<T>) -> (r: Self) ensures r.made(l.rest());
}
impl<T> VFromIter<T> for Vec<T> {
    open spec fn made(self, s: Seq<T>) -> bool { self@ == s }
    #[verifier::external_body]
    fn v_from(l: VIt<T>) -> (r: Self) { unimplemented!() }
}
impl<T> VList<T> {
    pub fn collect<C: VFromIter<T>>(self) -> (r: C) ensures r.made(self.rest()) { C::v_from(self.v) }
    pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self.rest() { self.collect() }
}
impl<T> VIt<T> {
    pub fn collect<C: VFromIter<T>>(self) -> (r: C) ensures r.made(self.rest()) { C::v_from(self) }
    pub fn collect_vec(self) -> (r: Vec<T>) ensures r@ == self.rest() { self.collect() }
}
impl<T> VIt<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIt<(usize, T)>)
        requires self.rest().len() <= usize::MAX,
        ensures r.rest().len() == self.rest().len(), forall|k: int| #![trigger r.rest()[k]] 0 <= k < r.rest().len() ==> r.rest()[k].0 == k && r.rest()[k].1 == self.rest()[k] { unimplemented!() }
}
impl<'a, T> VIt<&'a T> {
    /// `Iterator::copied`
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIt<T>) ensures r.rest() == drf(self.rest()) { unimplemented!() }
}
/// `iter` of a vector
pub trait VRefs<T> {
    spec fn refs(&self) -> Seq<T>;
    fn v_refs(&self) -> (r: VIt<&T>) ensures drf(r.rest()) == self.refs(), r.rest().len() == self.refs().len();
}
impl<T> VRefs<T> for Vec<T> {
    open spec fn refs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_refs(&self) -> (r: VIt<&T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type It = VIt<T>;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<T> { self@ }
    open spec fn ieq(self, r: VIt<T>) -> bool { true }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() }
}
pub enum Either<L, R> { Left(L), Right(R) }
impl<T> VIt<T> {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
}
/// The same items, behind an opaque type (`impl Iterator`).
#[verifier::external_body]
pub fn v_it<I: VIter>(i: I) -> (r: VIt<I::Item>) requires i.ok(), ensures r.rest() == i.rest() { unimplemented!() }
/// `s.into_iter().filter(f)`
pub open spec fn keep<T>(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { (if f(s[0]) { seq![s[0]] } else { Seq::empty() }) + keep(s.skip(1), f) } }
/// `s.into_iter().flat_map(f)`
pub open spec fn flat<T, U>(s: Seq<T>, f: spec_fn(T) -> Seq<U>) -> Seq<U>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { f(s[0]) + flat(s.skip(1), f) } }
/// Every item kept is an item, and satisfies f.
pub proof fn lemma_keep_all<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures forall|k: int| #![trigger keep(s, f)[k]] 0 <= k < keep(s, f).len() ==> f(keep(s, f)[k]) && s.contains(keep(s, f)[k]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        lemma_keep_all(t, f);
        let a: Seq<T> = if f(s[0]) { seq![s[0]] } else { Seq::empty() };
        assert forall|k: int| #![trigger keep(s, f)[k]] 0 <= k < keep(s, f).len() implies f(keep(s, f)[k]) && s.contains(keep(s, f)[k]) by {
            if k < a.len() { assert(s[0] == keep(s, f)[k]); }
            else { let x = keep(t, f)[k - a.len()]; assert(t.contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j + 1] == x); }
        }
    }
}
/// What is kept satisfies f, and everything that does is kept, in order.
pub proof fn theorem_keep<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures keep(s, f) == s.filter(f),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        theorem_keep(s.skip(1), f);
        let a = seq![s[0]];
        assert(s =~= a + s.skip(1));
        Seq::filter_distributes_over_add(a, s.skip(1), f);
        assert(a.drop_last() =~= Seq::empty());
        assert(a.drop_last().filter(f) =~= Seq::empty());
        assert(a.filter(f) =~= (if f(s[0]) { seq![s[0]] } else { Seq::empty() }));
    }
}
=== raw view_trait
/// The contract of `PortView` and `LinkView`, for a graph seen through a view.
pub trait VView: Sized {
    type LinkEndpoint: Copy + VInto<PortIndex>;
    spec fn gok(self) -> bool;
    spec fn hn(self, n: int) -> bool;
    /// The node of a port, or -1.
    spec fn pn(self, p: int) -> int;
    spec fn sn(self) -> Seq<NodeIndex>;
    spec fn sp(self) -> Seq<PortIndex>;
    spec fn sd(self, n: int, d: Direction) -> Seq<PortIndex>;
    spec fn sa(self, n: int) -> Seq<PortIndex>;
    spec fn ld(self, n: int, d: Direction) -> Seq<(Self::LinkEndpoint, Self::LinkEndpoint)>;
    spec fn la(self, n: int) -> Seq<(Self::LinkEndpoint, Self::LinkEndpoint)>;
    spec fn lp(self, p: int) -> Seq<(Self::LinkEndpoint, Self::LinkEndpoint)>;
    spec fn lc(self, a: int, b: int) -> Seq<(Self::LinkEndpoint, Self::LinkEndpoint)>;
    spec fn nd(self, n: int, d: Direction) -> Seq<NodeIndex>;
    spec fn na(self, n: int) -> Seq<NodeIndex>;
    proof fn laws(self)
        requires self.gok(),
        ensures
            forall|k: int| #![trigger self.sn()[k]] 0 <= k < self.sn().len() ==> self.sn()[k].wf() && self.hn(self.sn()[k].i()),
            forall|k: int| #![trigger self.sp()[k]] 0 <= k < self.sp().len() ==> self.sp()[k].wf() && self.pn(self.sp()[k].i()) >= 0,
            forall|n: int, d: Direction, k: int| #![trigger self.ld(n, d)[k]] 0 <= k < self.ld(n, d).len() ==> epw(self.ld(n, d)[k]) && self.pn(epi(self.ld(n, d)[k].0)) >= 0 && self.pn(epi(self.ld(n, d)[k].1)) >= 0,
            forall|n: int, k: int| #![trigger self.la(n)[k]] 0 <= k < self.la(n).len() ==> epw(self.la(n)[k]) && self.pn(epi(self.la(n)[k].0)) >= 0 && self.pn(epi(self.la(n)[k].1)) >= 0,
            forall|p: int, k: int| #![trigger self.lp(p)[k]] 0 <= k < self.lp(p).len() ==> epw(self.lp(p)[k]) && self.pn(epi(self.lp(p)[k].0)) >= 0 && self.pn(epi(self.lp(p)[k].1)) >= 0,
            forall|a: int, b: int, k: int| #![trigger self.lc(a, b)[k]] 0 <= k < self.lc(a, b).len() ==> epw(self.lc(a, b)[k]) && self.pn(epi(self.lc(a, b)[k].0)) >= 0 && self.pn(epi(self.lc(a, b)[k].1)) >= 0,
            forall|n: int, d: Direction, k: int| #![trigger self.nd(n, d)[k]] 0 <= k < self.nd(n, d).len() ==> self.nd(n, d)[k].wf(),
            forall|n: int, k: int| #![trigger self.na(n)[k]] 0 <= k < self.na(n).len() ==> self.na(n)[k].wf(),
            forall|p: int| #![trigger self.pn(p)] self.pn(p) >= 0 ==> self.hn(self.pn(p)),
            forall|n: int| #![trigger self.hn(n)] self.hn(n) ==> NodeIndex::mk(n).wf() && NodeIndex::mk(n).i() == n,
            forall|n: int, d: Direction, k: int| #![trigger self.sd(n, d)[k]] 0 <= k < self.sd(n, d).len() ==> self.sd(n, d)[k].wf() && self.pn(self.sd(n, d)[k].i()) == n && self.pdn(self.sd(n, d)[k].i()) == d,
            forall|n: int, k: int| #![trigger self.sa(n)[k]] 0 <= k < self.sa(n).len() ==> self.sa(n)[k].wf() && self.pn(self.sa(n)[k].i()) == n,
    ;
    spec fn pdn(self, p: int) -> Direction;
    fn port_direction<X: VInto<PortIndex>>(&self, port: X) -> (r: Option<Direction>)
        requires self.gok(), port.into_spec().wf(),
        ensures r == (if self.pn(port.into_spec().i()) >= 0 { Some(self.pdn(port.into_spec().i())) } else { None::<Direction> });
    fn inputs(&self, node: NodeIndex) -> (r: VIt<PortIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.sd(node.i(), Direction::Incoming);
    fn outputs(&self, node: NodeIndex) -> (r: VIt<PortIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.sd(node.i(), Direction::Outgoing);
    fn contains_node(&self, node: NodeIndex) -> (r: bool) requires self.gok(), node.wf(), ensures r == self.hn(node.i());
    fn contains_port(&self, port: PortIndex) -> (r: bool) requires self.gok(), port.wf(), ensures r == (self.pn(port.i()) >= 0);
    fn port_node<X: VInto<PortIndex>>(&self, port: X) -> (r: Option<NodeIndex>)
        requires self.gok(), port.into_spec().wf(),
        ensures match r { Some(n) => n.wf() && n.i() == self.pn(port.into_spec().i()) && self.hn(n.i()), None => self.pn(port.into_spec().i()) == -1 };
    fn node_count(&self) -> (r: usize) requires self.gok(), ensures r == self.sn().len();
    fn port_count(&self) -> (r: usize) requires self.gok(), ensures r == self.sp().len();
    fn nodes_iter(&self) -> (r: VIt<NodeIndex>) requires self.gok(), ensures r.rest() == self.sn();
    fn ports_iter(&self) -> (r: VIt<PortIndex>) requires self.gok(), ensures r.rest() == self.sp();
    fn ports(&self, node: NodeIndex, direction: Direction) -> (r: VIt<PortIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.sd(node.i(), direction);
    fn all_ports(&self, node: NodeIndex) -> (r: VIt<PortIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.sa(node.i());
    fn links(&self, node: NodeIndex, direction: Direction) -> (r: VIt<(Self::LinkEndpoint, Self::LinkEndpoint)>) requires self.gok(), node.wf(), ensures r.rest() == self.ld(node.i(), direction);
    fn all_links(&self, node: NodeIndex) -> (r: VIt<(Self::LinkEndpoint, Self::LinkEndpoint)>) requires self.gok(), node.wf(), ensures r.rest() == self.la(node.i());
    fn port_links(&self, port: PortIndex) -> (r: VIt<(Self::LinkEndpoint, Self::LinkEndpoint)>) requires self.gok(), port.wf(), self.pn(port.i()) >= 0, ensures r.rest() == self.lp(port.i());
    fn get_connections(&self, from: NodeIndex, to: NodeIndex) -> (r: VIt<(Self::LinkEndpoint, Self::LinkEndpoint)>) requires self.gok(), from.wf(), to.wf(), ensures r.rest() == self.lc(from.i(), to.i());
    fn neighbours(&self, node: NodeIndex, direction: Direction) -> (r: VIt<NodeIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.nd(node.i(), direction);
    fn all_neighbours(&self, node: NodeIndex) -> (r: VIt<NodeIndex>) requires self.gok(), node.wf(), ensures r.rest() == self.na(node.i());
}
#[verifier::inline]
pub open spec fn epi<E: VInto<PortIndex>>(e: E) -> int { e.into_spec().i() }
#[verifier::inline]
pub open spec fn epw<E: VInto<PortIndex>>(l: (E, E)) -> bool { l.0.into_spec().wf() && l.1.into_spec().wf() }
/// The endpoints are ports of the graph.
pub open spec fn lok<G: VView>(g: G, s: Seq<(G::LinkEndpoint, G::LinkEndpoint)>) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0.into_spec().wf() && s[k].1.into_spec().wf() && g.pn(epi(s[k].0)) >= 0 && g.pn(epi(s[k].1)) >= 0
}
=== raw view_pg_laws
pub open spec fn ppn(g: PortGraph, p: int) -> int { if g.has_port(p) { g.pnode(p) } else { -1 } }
pub open spec fn ppl(g: PortGraph, p: int) -> Seq<(PortIndex, PortIndex)> { if g.has_port(p) && g.link(p) >= 0 { seq![(PortIndex::mk(p), PortIndex::mk(g.link(p)))] } else { Seq::empty() } }
pub open spec fn plok(g: PortGraph, s: Seq<(PortIndex, PortIndex)>) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0.wf() && s[k].1.wf() && ppn(g, s[k].0.i()) >= 0 && ppn(g, s[k].1.i()) >= 0
}
pub proof fn lemma_pg_laws(g: PortGraph)
    requires g.wf(),
    ensures
        forall|k: int| #![trigger g.nodes()[k]] 0 <= k < g.nodes().len() ==> g.nodes()[k].wf() && g.has_node(g.nodes()[k].i()),
        forall|k: int| #![trigger g.ports_()[k]] 0 <= k < g.ports_().len() ==> g.ports_()[k].wf() && ppn(g, g.ports_()[k].i()) >= 0,
        forall|n: int, d: Direction| #![trigger g.dlinks(n, d)] plok(g, g.dlinks(n, d)),
        forall|n: int| #![trigger g.alinks(n)] plok(g, g.alinks(n)),
        forall|p: int| #![trigger ppl(g, p)] plok(g, ppl(g, p)),
        forall|a: int, b: int| #![trigger g.conns(a, b)] plok(g, g.conns(a, b)),
        forall|n: int, d: Direction, k: int| #![trigger far(g, g.dlinks(n, d))[k]] 0 <= k < far(g, g.dlinks(n, d)).len() ==> far(g, g.dlinks(n, d))[k].wf(),
        forall|n: int, k: int| #![trigger far(g, g.alinks(n))[k]] 0 <= k < far(g, g.alinks(n)).len() ==> far(g, g.alinks(n))[k].wf(),
        forall|p: int| #![trigger ppn(g, p)] ppn(g, p) >= -1 && (ppn(g, p) >= 0 ==> g.has_node(ppn(g, p)) && g.has_port(p) && ppn(g, p) <= max_ix()),
        forall|n: int| #![trigger g.has_node(n)] g.has_node(n) ==> NodeIndex::mk(n).wf() && NodeIndex::mk(n).i() == n,
        forall|n: int, d: Direction, k: int| #![trigger g.dports(n, d)[k]] 0 <= k < g.dports(n, d).len() ==> g.dports(n, d)[k].wf() && ppn(g, g.dports(n, d)[k].i()) == n && g.pdir(g.dports(n, d)[k].i()) == d,
        forall|n: int, k: int| #![trigger g.aports(n)[k]] 0 <= k < g.aports(n).len() ==> g.aports(n)[k].wf() && ppn(g, g.aports(n)[k].i()) == n,
{
    assert forall|n: int, d: Direction, k: int| #![trigger g.dports(n, d)[k]] 0 <= k < g.dports(n, d).len() implies g.dports(n, d)[k].wf() && ppn(g, g.dports(n, d)[k].i()) == n && g.pdir(g.dports(n, d)[k].i()) == d by { lemma_node(g, n); assert(g.port_id(n, d, k) == g.m(n).at(d) + k); theorem_index_offset(g, n, d, k, -1); lemma_port(g, g.port_id(n, d, k)); }
    assert forall|n: int, k: int| #![trigger g.aports(n)[k]] 0 <= k < g.aports(n).len() implies g.aports(n)[k].wf() && ppn(g, g.aports(n)[k].i()) == n by { lemma_node(g, n); let i = g.m(n).inc(); let d = if k < i { Direction::Incoming } else { Direction::Outgoing }; let j = if k < i { k } else { k - i }; assert(g.port_id(n, d, j) == g.m(n).first() + k); theorem_index_offset(g, n, d, j, -1); lemma_port(g, g.port_id(n, d, j)); }

    assert forall|p: int| #![trigger ppn(g, p)] ppn(g, p) >= -1 && (ppn(g, p) >= 0 ==> g.has_node(ppn(g, p)) && g.has_port(p) && ppn(g, p) <= max_ix()) by { if g.has_port(p) { lemma_port(g, p); } }
    assert(g.node_meta@.len() <= max_ix() + 1 && g.port_meta@.len() <= max_ix() + 1) by { reveal(nodes_ok); reveal(ports_ok); }
    theorem_nodes(g.node_meta@, 0, g.node_meta@.len() as int);
    theorem_ports(g.port_meta@, 0, g.port_meta@.len() as int);
    assert forall|k: int| #![trigger g.ports_()[k]] 0 <= k < g.ports_().len() implies g.ports_()[k].wf() && ppn(g, g.ports_()[k].i()) >= 0 by { lemma_port(g, g.ports_()[k].i()); }
    assert forall|n: int, d: Direction| #![trigger g.dlinks(n, d)] plok(g, g.dlinks(n, d)) by { lemma_pg_l(g, n, d); }
    assert forall|n: int| #![trigger g.alinks(n)] plok(g, g.alinks(n)) by { lemma_pg_l(g, n, Direction::Incoming); }
    assert forall|p: int| #![trigger ppl(g, p)] plok(g, ppl(g, p)) by { if g.has_port(p) { lemma_port(g, p); if g.link(p) >= 0 { assert(link_at(g.port_link@, g.port_meta@, p)); lemma_port(g, g.link(p)); } } }
    assert forall|a: int, b: int| #![trigger g.conns(a, b)] plok(g, g.conns(a, b)) by { lemma_pg_l(g, a, Direction::Outgoing); lemma_pg_to(g, g.dlinks(a, Direction::Outgoing), b); }
    assert forall|n: int, d: Direction, k: int| #![trigger far(g, g.dlinks(n, d))[k]] 0 <= k < far(g, g.dlinks(n, d)).len() implies far(g, g.dlinks(n, d))[k].wf() by { theorem_links(g, n, d); let b = g.dlinks(n, d)[k].1; assert(ppn(g, b.i()) <= max_ix()); lemma_port(g, b.i()); }
    assert forall|n: int, k: int| #![trigger far(g, g.alinks(n))[k]] 0 <= k < far(g, g.alinks(n)).len() implies far(g, g.alinks(n))[k].wf() by { theorem_all_links(g, n); let b = g.alinks(n)[k].1; assert(ppn(g, b.i()) <= max_ix()); lemma_port(g, b.i()); }
}
proof fn lemma_pg_l(g: PortGraph, n: int, d: Direction)
    requires g.wf(),
    ensures plok(g, g.dlinks(n, d)), plok(g, g.alinks(n)),
{
    theorem_links(g, n, d); theorem_all_links(g, n);
    assert forall|k: int| #![trigger g.dlinks(n, d)[k]] 0 <= k < g.dlinks(n, d).len() implies ppn(g, g.dlinks(n, d)[k].0.i()) >= 0 && ppn(g, g.dlinks(n, d)[k].1.i()) >= 0 by { lemma_port(g, g.dlinks(n, d)[k].0.i()); lemma_port(g, g.dlinks(n, d)[k].1.i()); }
    assert forall|k: int| #![trigger g.alinks(n)[k]] 0 <= k < g.alinks(n).len() implies ppn(g, g.alinks(n)[k].0.i()) >= 0 && ppn(g, g.alinks(n)[k].1.i()) >= 0 by { lemma_port(g, g.alinks(n)[k].0.i()); lemma_port(g, g.alinks(n)[k].1.i()); }
}
proof fn lemma_pg_to(g: PortGraph, s: Seq<(PortIndex, PortIndex)>, b: int)
    requires plok(g, s),
    ensures plok(g, to_node(g, s, b)),
    decreases s.len(),
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert(plok(g, s.drop_last())); lemma_pg_to(g, s.drop_last(), b); } }
=== raw view_pg
/// `PortGraph` meets the contract.
impl VView for PortGraph {
    type LinkEndpoint = PortIndex;
    open spec fn gok(self) -> bool { self.wf() }
    open spec fn hn(self, n: int) -> bool { self.has_node(n) }
    open spec fn pn(self, p: int) -> int { ppn(self, p) }
    open spec fn sn(self) -> Seq<NodeIndex> { self.nodes() }
    open spec fn sp(self) -> Seq<PortIndex> { self.ports_() }
    open spec fn sd(self, n: int, d: Direction) -> Seq<PortIndex> { self.dports(n, d) }
    open spec fn sa(self, n: int) -> Seq<PortIndex> { self.aports(n) }
    open spec fn ld(self, n: int, d: Direction) -> Seq<(PortIndex, PortIndex)> { self.dlinks(n, d) }
    open spec fn la(self, n: int) -> Seq<(PortIndex, PortIndex)> { self.alinks(n) }
    open spec fn lp(self, p: int) -> Seq<(PortIndex, PortIndex)> { ppl(self, p) }
    open spec fn lc(self, a: int, b: int) -> Seq<(PortIndex, PortIndex)> { self.conns(a, b) }
    open spec fn nd(self, n: int, d: Direction) -> Seq<NodeIndex> { far(self, self.dlinks(n, d)) }
    open spec fn na(self, n: int) -> Seq<NodeIndex> { far(self, self.alinks(n)) }
    proof fn laws(self) { lemma_pg_laws(self); }
    open spec fn pdn(self, p: int) -> Direction { self.pdir(p) }
    fn port_direction<X: VInto<PortIndex>>(&self, port: X) -> (r: Option<Direction>) { proof { if self.has_port(port.into_spec().i()) { lemma_port(*self, port.into_spec().i()); } } self.port_direction(port) }
    fn inputs(&self, node: NodeIndex) -> (r: VIt<PortIndex>) { v_it(self._inputs(node)) }
    fn outputs(&self, node: NodeIndex) -> (r: VIt<PortIndex>) { v_it(self.outputs(node)) }
    fn contains_node(&self, node: NodeIndex) -> (r: bool) { self.contains_node(node) }
    fn contains_port(&self, port: PortIndex) -> (r: bool) { proof { if self.has_port(port.i()) { lemma_port(*self, port.i()); } } self.contains_port(port) }
    fn port_node<X: VInto<PortIndex>>(&self, port: X) -> (r: Option<NodeIndex>) { proof { lemma_pg_laws(*self); } self.port_node(port) }
    fn node_count(&self) -> (r: usize) { proof { lemma_nseq(self.node_meta@, 0, self.node_meta@.len() as int); } self.node_count() }
    fn port_count(&self) -> (r: usize) { proof { lemma_pts(self.port_meta@, 0, self.port_meta@.len() as int); } self.port_count() }
    fn nodes_iter(&self) -> (r: VIt<NodeIndex>) { v_it(self.nodes_iter()) }
    fn ports_iter(&self) -> (r: VIt<PortIndex>) { v_it(self.ports_iter()) }
    fn ports(&self, node: NodeIndex, direction: Direction) -> (r: VIt<PortIndex>) { v_it(self.ports(node, direction)) }
    fn all_ports(&self, node: NodeIndex) -> (r: VIt<PortIndex>) { v_it(self.all_ports(node)) }
    fn links(&self, node: NodeIndex, direction: Direction) -> (r: VIt<(PortIndex, PortIndex)>) { v_it(self.links(node, direction)) }
    fn all_links(&self, node: NodeIndex) -> (r: VIt<(PortIndex, PortIndex)>) { v_it(self.all_links(node)) }
    fn port_links(&self, port: PortIndex) -> (r: VIt<(PortIndex, PortIndex)>) { let x = self.port_links(port); v_it(x) }
    fn get_connections(&self, from: NodeIndex, to: NodeIndex) -> (r: VIt<(PortIndex, PortIndex)>) { v_it(self.get_connections(from, to)) }
    fn neighbours(&self, node: NodeIndex, direction: Direction) -> (r: VIt<NodeIndex>) { v_it(self.neighbours(node, direction)) }
    fn all_neighbours(&self, node: NodeIndex) -> (r: VIt<NodeIndex>) { v_it(self.all_neighbours(node)) }
}
