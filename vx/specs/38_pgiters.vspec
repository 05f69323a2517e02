=== default P=G05
=== raw slice_iters
// ---- std::slice::Iter, Enumerate and Zip: executable models with checked contracts ----
/// `std::slice::Iter`: the elements lo..hi of s are left.
pub struct VSl<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T> VSl<'a, T> {
    pub open spec fn ok(self) -> bool { self.lo <= self.hi <= self.s@.len() }
    pub open spec fn rest(self) -> Seq<T> { self.s@.subrange(self.lo as int, self.hi as int) }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).s == old(self).s, final(self).hi == old(self).hi,
            final(self).lo == old(self).lo + (if r is Some { 1int } else { 0 }),
            r is Some <==> old(self).lo < old(self).hi,
            r matches Some(x) ==> *x == old(self).s@[old(self).lo as int],
    {
        if self.lo < self.hi { let s = self.s; let x = &s[self.lo]; self.lo = self.lo + 1; Some(x) } else { None }
    }
    pub fn next_back(&mut self) -> (r: Option<&'a T>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).s == old(self).s, final(self).lo == old(self).lo,
            final(self).hi == old(self).hi - (if r is Some { 1int } else { 0 }),
            r is Some <==> old(self).lo < old(self).hi,
            r matches Some(x) ==> *x == old(self).s@[old(self).hi - 1],
    {
        if self.lo < self.hi { self.hi = self.hi - 1; let s = self.s; Some(&s[self.hi]) } else { None }
    }
    pub fn len(&self) -> (r: usize) requires self.ok(), ensures r == self.hi - self.lo { self.hi - self.lo }
    /// `enumerate` of a fresh iterator
    pub fn enumerate(self) -> (r: VEnum<'a, T>) requires self.ok(), self.lo == 0, ensures r.it == self { VEnum { it: self } }
}
pub trait VAsSl<T> {
    spec fn els(&self) -> Seq<T>;
    fn v_sl(&self) -> (r: VSl<'_, T>) ensures r.ok(), r.lo == 0, r.s@ == self.els(), r.hi == self.els().len(), r.rest() == self.els();
}
impl<T> VAsSl<T> for Vec<T> {
    open spec fn els(&self) -> Seq<T> { self@ }
    fn v_sl(&self) -> (r: VSl<'_, T>) { let r = VSl { s: self.as_slice(), lo: 0, hi: self.len() }; assert(r.rest() =~= self@); r }
}
impl<T> VAsSl<T> for [T] {
    open spec fn els(&self) -> Seq<T> { self@ }
    fn v_sl(&self) -> (r: VSl<'_, T>) { let r = VSl { s: self, lo: 0, hi: self.len() }; assert(r.rest() =~= self@); r }
}
/// `slice::Iter::enumerate`
pub struct VEnum<'a, T> { pub it: VSl<'a, T> }
impl<'a, T> VEnum<'a, T> {
    pub open spec fn ok(self) -> bool { self.it.ok() }
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).it.s == old(self).it.s, final(self).it.hi == old(self).it.hi,
            final(self).it.lo == old(self).it.lo + (if r is Some { 1int } else { 0 }),
            r is Some <==> old(self).it.lo < old(self).it.hi,
            r matches Some(x) ==> x.0 == old(self).it.lo && *x.1 == old(self).it.s@[old(self).it.lo as int],
    { let i = self.it.lo; match self.it.next() { Some(x) => Some((i, x)), None => None } }
    pub fn next_back(&mut self) -> (r: Option<(usize, &'a T)>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).it.s == old(self).it.s, final(self).it.lo == old(self).it.lo,
            final(self).it.hi == old(self).it.hi - (if r is Some { 1int } else { 0 }),
            r is Some <==> old(self).it.lo < old(self).it.hi,
            r matches Some(x) ==> x.0 == old(self).it.hi - 1 && *x.1 == old(self).it.s@[old(self).it.hi - 1],
    { match self.it.next_back() { Some(x) => Some((self.it.hi, x)), None => None } }
}
/// `Zip` of iterators of the same length
pub struct VZip<A, B> { pub a: A, pub b: B }
pub fn v_zip_new<A, B>(a: A, b: B) -> (r: VZip<A, B>) ensures r.a == a, r.b == b { VZip { a, b } }
impl<'a> VZip<NodePorts, VSl<'a, MaybePortIndex>> {
    pub open spec fn ok(self) -> bool { self.a.wf() && self.b.ok() && self.a.seq().len() == self.b.hi - self.b.lo }
    pub fn next(&mut self) -> (r: Option<(PortIndex, &'a MaybePortIndex)>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).b.s == old(self).b.s,
            match r {
                Some((p, l)) => old(self).a.seq().len() > 0 && p.wf() && p == old(self).a.seq()[0] && *l == old(self).b.rest()[0]
                    && final(self).a.seq() == old(self).a.seq().skip(1) && final(self).b.rest() == old(self).b.rest().skip(1),
                None => old(self).a.seq().len() == 0 && *final(self) == *old(self),
            },
    {
        match self.b.next() {
            Some(l) => match self.a.next() {
                Some(p) => { assert(self.b.rest() =~= old(self).b.rest().skip(1)); Some((p, l)) }
                None => v_unreachable(),
            },
            None => None,
        }
    }
    pub fn next_back(&mut self) -> (r: Option<(PortIndex, &'a MaybePortIndex)>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).b.s == old(self).b.s,
            match r {
                Some((p, l)) => old(self).a.seq().len() > 0 && p.wf() && p == old(self).a.seq().last() && *l == old(self).b.rest().last()
                    && final(self).a.seq() == old(self).a.seq().drop_last() && final(self).b.rest() == old(self).b.rest().drop_last(),
                None => old(self).a.seq().len() == 0 && *final(self) == *old(self),
            },
    {
        match self.b.next_back() {
            Some(l) => match self.a.next_back() {
                Some(p) => { assert(self.b.rest() =~= old(self).b.rest().drop_last()); Some((p, l)) }
                None => v_unreachable(),
            },
            None => None,
        }
    }
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) requires self.ok(), ensures r == (self.b.rest().len() as usize, Some(self.b.rest().len() as usize)) { (self.b.len(), Some(self.b.len())) }
}
/// `&v[r]`
pub fn v_slice<'a, T>(v: &'a Vec<T>, r: VRange) -> (s: &'a [T])
    requires r.start <= r.end <= v@.len(),
    ensures s@ == v@.subrange(r.start as int, r.end as int),
{ vstd::slice::slice_subrange(v.as_slice(), r.start, r.end) }
/// `&[]`
#[verifier::external_body]
pub fn v_empty<'a, T>() -> (s: &'a [T]) ensures s@.len() == 0 { &[] }
/// `std::option::IntoIter`
pub struct VOpt<T> { pub o: Option<T> }
impl<T> VIter for VOpt<T> {
    type Item = T;
    open spec fn rest(self) -> Seq<T> { match self.o { Some(x) => seq![x], None => Seq::empty() } }
    open spec fn ok(self) -> bool { true }
    fn v_next(&mut self) -> (r: Option<T>) { let r = v_replace(&mut self.o, None); proof { if r is Some { assert(self.rest() =~= old(self).rest().skip(1)); } } r }
}
impl<T> VOpt<T> {
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r == old(self).o, final(self).o is None,
    { v_replace(&mut self.o, None) }
}
impl<T> VIntoIter for Option<T> {
    type It = VOpt<T>;
    open spec fn iok(self) -> bool { true }
    open spec fn irest(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    open spec fn ieq(self, r: VOpt<T>) -> bool { r.o == self }
    fn v_into_iter(self) -> (r: VOpt<T>) { VOpt { o: self } }
}
// ---- nodes and ports of a graph, in index order ----
pub open spec fn nseq(nm: Seq<NodeEntry>, a: int, b: int) -> Seq<NodeIndex>
    decreases b - a,
{ if a >= b { Seq::empty() } else { nseq(nm, a, b - 1) + (if live(nm, b - 1) { seq![NodeIndex::mk(b - 1)] } else { Seq::empty() }) } }
pub open spec fn pts(pm: Seq<PortEntry>, a: int, b: int) -> Seq<PortIndex>
    decreases b - a,
{ if a >= b { Seq::empty() } else { pts(pm, a, b - 1) + (if isp(pm, b - 1) { seq![PortIndex::mk(b - 1)] } else { Seq::empty() }) } }
pub proof fn lemma_nseq(nm: Seq<NodeEntry>, a: int, b: int)
    ensures
        nseq(nm, a, b).len() == cnt(nf_(nm), a, b),
        a < b ==> nseq(nm, a, b) =~= (if live(nm, a) { seq![NodeIndex::mk(a)] } else { Seq::empty() }) + nseq(nm, a + 1, b),
    decreases b - a,
{ if a < b { lemma_nseq(nm, a, b - 1); } }
pub proof fn lemma_pts(pm: Seq<PortEntry>, a: int, b: int)
    ensures
        pts(pm, a, b).len() == cnt(pf_(pm), a, b),
        a < b ==> pts(pm, a, b) =~= (if isp(pm, a) { seq![PortIndex::mk(a)] } else { Seq::empty() }) + pts(pm, a + 1, b),
    decreases b - a,
{ if a < b { lemma_pts(pm, a, b - 1); } }
/// The list of nodes contains every node once, in increasing order, and nothing else.
pub proof fn theorem_nodes(nm: Seq<NodeEntry>, a: int, b: int)
    requires 0 <= a, b <= nm.len(), nm.len() <= max_ix() + 1,
    ensures
        forall|k: int| #![trigger nseq(nm, a, b)[k]] 0 <= k < nseq(nm, a, b).len() ==> nseq(nm, a, b)[k].wf() && a <= nseq(nm, a, b)[k].i() < b && live(nm, nseq(nm, a, b)[k].i()),
        forall|j: int, k: int| #![trigger nseq(nm, a, b)[j], nseq(nm, a, b)[k]] 0 <= j < k < nseq(nm, a, b).len() ==> nseq(nm, a, b)[j].i() < nseq(nm, a, b)[k].i(),
        forall|n: int| #![trigger live(nm, n)] a <= n < b && live(nm, n) ==> nseq(nm, a, b).contains(NodeIndex::mk(n)),
    decreases b - a,
{
    if a < b {
        theorem_nodes(nm, a, b - 1);
        let s = nseq(nm, a, b - 1); let t = nseq(nm, a, b);
        assert forall|n: int| #![trigger live(nm, n)] a <= n < b && live(nm, n) implies t.contains(NodeIndex::mk(n)) by {
            if n == b - 1 { assert(t[s.len() as int] == NodeIndex::mk(n)); }
            else { let k = choose|k: int| 0 <= k < s.len() && s[k] == NodeIndex::mk(n); assert(s.contains(NodeIndex::mk(n))); assert(t[k] == s[k]); }
        }
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].wf() && a <= t[k].i() < b && live(nm, t[k].i()) by { if k < s.len() { assert(t[k] == s[k]); } }
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < k < t.len() implies t[j].i() < t[k].i() by { assert(t[j] == s[j]); if k < s.len() { assert(t[k] == s[k]); } }
    }
}
pub proof fn theorem_ports(pm: Seq<PortEntry>, a: int, b: int)
    requires 0 <= a, b <= pm.len(), pm.len() <= max_ix() + 1,
    ensures
        forall|k: int| #![trigger pts(pm, a, b)[k]] 0 <= k < pts(pm, a, b).len() ==> pts(pm, a, b)[k].wf() && a <= pts(pm, a, b)[k].i() < b && isp(pm, pts(pm, a, b)[k].i()),
        forall|j: int, k: int| #![trigger pts(pm, a, b)[j], pts(pm, a, b)[k]] 0 <= j < k < pts(pm, a, b).len() ==> pts(pm, a, b)[j].i() < pts(pm, a, b)[k].i(),
        forall|n: int| #![trigger isp(pm, n)] a <= n < b && isp(pm, n) ==> pts(pm, a, b).contains(PortIndex::mk(n)),
    decreases b - a,
{
    if a < b {
        theorem_ports(pm, a, b - 1);
        let s = pts(pm, a, b - 1); let t = pts(pm, a, b);
        assert forall|n: int| #![trigger isp(pm, n)] a <= n < b && isp(pm, n) implies t.contains(PortIndex::mk(n)) by {
            if n == b - 1 { assert(t[s.len() as int] == PortIndex::mk(n)); }
            else { let k = choose|k: int| 0 <= k < s.len() && s[k] == PortIndex::mk(n); assert(s.contains(PortIndex::mk(n))); assert(t[k] == s[k]); }
        }
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].wf() && a <= t[k].i() < b && isp(pm, t[k].i()) by { if k < s.len() { assert(t[k] == s[k]); } }
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < k < t.len() implies t[j].i() < t[k].i() by { assert(t[j] == s[j]); if k < s.len() { assert(t[k] == s[k]); } }
    }
}
=== type portgraph::iter Nodes derive=none slit
=== type portgraph::iter Ports derive=none slit
=== raw nodes_iter
impl<'a> Nodes<'a> {
    pub open spec fn seq(self) -> Seq<NodeIndex> { nseq(self.iter.it.s@, self.iter.it.lo as int, self.iter.it.hi as int) }
    pub open spec fn wf(self) -> bool { self.iter.ok() && self.iter.it.s@.len() <= max_ix() + 1 && self.len == self.seq().len() }
}
impl<'a> Ports<'a> {
    pub open spec fn seq(self) -> Seq<PortIndex> { pts(self.iter.it.s@, self.iter.it.lo as int, self.iter.it.hi as int) }
    pub open spec fn wf(self) -> bool { self.iter.ok() && self.iter.it.s@.len() <= max_ix() + 1 && self.len == self.seq().len() }
}
impl<'a> VIter for Nodes<'a> {
    type Item = NodeIndex;
    open spec fn rest(self) -> Seq<NodeIndex> { self.seq() }
    open spec fn ok(self) -> bool { self.wf() }
    fn v_next(&mut self) -> (r: Option<NodeIndex>) { self.next() }
}
impl<'a> VIter for Ports<'a> {
    type Item = PortIndex;
    open spec fn rest(self) -> Seq<PortIndex> { self.seq() }
    open spec fn ok(self) -> bool { self.wf() }
    fn v_next(&mut self) -> (r: Option<PortIndex>) { self.next() }
}
impl<'a> VIntoIter for Nodes<'a> {
    type It = Nodes<'a>;
    open spec fn iok(self) -> bool { self.wf() }
    open spec fn irest(self) -> Seq<NodeIndex> { self.seq() }
    open spec fn ieq(self, r: Nodes<'a>) -> bool { r == self }
    fn v_into_iter(self) -> (r: Nodes<'a>) { self }
}
impl PortGraph {
    /// The nodes and the ports of the graph, in index order.
    pub open spec fn nodes(self) -> Seq<NodeIndex> { nseq(self.node_meta@, 0, self.node_meta@.len() as int) }
    pub open spec fn ports_(self) -> Seq<PortIndex> { pts(self.port_meta@, 0, self.port_meta@.len() as int) }
}
=== fn portgraph::iter Nodes::next of=Iterator found=NodeIndex assoc=Item:NodeIndex on=Nodes<'_> slit
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- loop 0
invariant_except_break __found0 is None, self.len == old(self).len, self.seq() == old(self).seq(),
invariant self.iter.ok(), self.iter.it.s == old(self).iter.it.s, old(self).wf(),
ensures
    self.seq() == (if __found0 is Some { old(self).seq().skip(1) } else { old(self).seq() }),
    self.len == self.seq().len(),
    match __found0 { Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0], None => old(self).seq().len() == 0 },
decreases self.iter.it.hi - self.iter.it.lo,
--- hint loop0.start
proof { lemma_nseq(self.iter.it.s@, self.iter.it.lo as int, self.iter.it.hi as int); assert(old(self).seq().len() > 0 ==> (seq![old(self).seq()[0]] + old(self).seq().skip(1) =~= old(self).seq())); 
    if self.iter.it.lo < self.iter.it.hi && live(self.iter.it.s@, self.iter.it.lo as int) { assert(self.seq().skip(1) =~= nseq(self.iter.it.s@, self.iter.it.lo + 1, self.iter.it.hi as int)); }
    else if self.iter.it.lo < self.iter.it.hi { assert(self.seq() =~= nseq(self.iter.it.s@, self.iter.it.lo + 1, self.iter.it.hi as int)); } }
=== fn portgraph::iter Nodes::count of=Iterator on=Nodes<'_>
--- spec
requires self.wf(),
ensures r == self.seq().len()
=== fn portgraph::iter Nodes::size_hint of=Iterator on=Nodes<'_>
--- spec
requires self.wf(),
ensures r == (self.seq().len() as usize, Some(self.seq().len() as usize))
=== fn portgraph::iter Nodes::len of=ExactSizeIterator on=Nodes<'_>
--- spec
requires self.wf(),
ensures r == self.seq().len()
=== fn portgraph::iter Nodes::next_back of=DoubleEndedIterator assoc=Item:NodeIndex on=Nodes<'_> slit
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- loop 0
invariant self.iter.ok(), self.iter.it.s == old(self).iter.it.s, old(self).wf(), self.len == old(self).len, self.seq() == old(self).seq(),
ensures self.seq().len() == 0,
decreases self.iter.it.hi - self.iter.it.lo,
--- hint before return#1
proof { assert(self.seq() =~= old(self).seq().drop_last()); }
=== fn portgraph::iter Ports::next of=Iterator found=PortIndex assoc=Item:PortIndex on=Ports<'_> slit
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- loop 0
invariant_except_break __found0 is None, self.len == old(self).len, self.seq() == old(self).seq(),
invariant self.iter.ok(), self.iter.it.s == old(self).iter.it.s, old(self).wf(),
ensures
    self.seq() == (if __found0 is Some { old(self).seq().skip(1) } else { old(self).seq() }),
    self.len == self.seq().len(),
    match __found0 { Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0], None => old(self).seq().len() == 0 },
decreases self.iter.it.hi - self.iter.it.lo,
--- hint loop0.start
proof { lemma_pts(self.iter.it.s@, self.iter.it.lo as int, self.iter.it.hi as int); assert(old(self).seq().len() > 0 ==> (seq![old(self).seq()[0]] + old(self).seq().skip(1) =~= old(self).seq()));
    if self.iter.it.lo < self.iter.it.hi && isp(self.iter.it.s@, self.iter.it.lo as int) { assert(self.seq().skip(1) =~= pts(self.iter.it.s@, self.iter.it.lo + 1, self.iter.it.hi as int)); }
    else if self.iter.it.lo < self.iter.it.hi { assert(self.seq() =~= pts(self.iter.it.s@, self.iter.it.lo + 1, self.iter.it.hi as int)); } }
=== fn portgraph::iter Ports::count of=Iterator on=Ports<'_>
--- spec
requires self.wf(),
ensures r == self.seq().len()
=== fn portgraph::iter Ports::size_hint of=Iterator on=Ports<'_>
--- spec
requires self.wf(),
ensures r == (self.seq().len() as usize, Some(self.seq().len() as usize))
=== fn portgraph::iter Ports::len of=ExactSizeIterator on=Ports<'_>
--- spec
requires self.wf(),
ensures r == self.seq().len()
=== fn portgraph::iter Ports::next_back of=DoubleEndedIterator assoc=Item:PortIndex on=Ports<'_> slit
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- loop 0
invariant self.iter.ok(), self.iter.it.s == old(self).iter.it.s, old(self).wf(), self.len == old(self).len, self.seq() == old(self).seq(),
ensures self.seq().len() == 0,
decreases self.iter.it.hi - self.iter.it.lo,
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().drop_last()); }
=== fn portgraph::iter PortGraph::_nodes_iter slit P=G05,G06,S02
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.nodes(),
--- hint start
proof { lemma_nseq(self.node_meta@, 0, self.node_meta@.len() as int); }
=== fn portgraph::iter PortGraph::_ports_iter slit P=G05,G06,S02
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.ports_(),
--- hint start
proof { lemma_pts(self.port_meta@, 0, self.port_meta@.len() as int); }
=== type portgraph::iter NodePortOffsets derive=none
=== raw offsets_iter
/// The offsets a..b in direction d.
pub open spec fn oseq(d: Direction, a: int, b: int) -> Seq<PortOffset> {
    Seq::new(if a <= b { (b - a) as nat } else { 0 }, |j: int| PortOffset::mk(d, a + j))
}
impl NodePortOffsets {
    pub open spec fn wf(self) -> bool {
        self.incoming.end <= PortOffset::max_o() + 1 && self.outgoing.end <= PortOffset::max_o() + 1
    }
    pub open spec fn seq(self) -> Seq<PortOffset> {
        oseq(Direction::Incoming, self.incoming.start as int, self.incoming.end as int) + oseq(Direction::Outgoing, self.outgoing.start as int, self.outgoing.end as int)
    }
}
impl PortGraph {
    /// The offsets of the ports of node n in a direction.
    pub open spec fn doffs(self, n: int, d: Direction) -> Seq<PortOffset> { oseq(d, 0, if self.has_node(n) { self.m(n).num(d) } else { 0 }) }
}
=== fn portgraph::iter NodePortOffsets::as_range
--- spec
ensures *r == (match dir { Direction::Incoming => self.incoming, Direction::Outgoing => self.outgoing }),
=== fn portgraph::iter NodePortOffsets::next of=Iterator assoc=Item:PortOffset
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().skip(1)); }
--- hint before return#1
proof { assert(self.seq() =~= old(self).seq().skip(1)); }
=== fn portgraph::iter NodePortOffsets::count of=Iterator
--- spec
requires self.wf(),
ensures r == self.seq().len()
=== fn portgraph::iter NodePortOffsets::size_hint of=Iterator
--- spec
requires self.wf(),
ensures r == (self.seq().len() as usize, Some(self.seq().len() as usize))
=== fn portgraph::iter NodePortOffsets::len of=ExactSizeIterator
--- spec
requires self.wf(),
ensures r == self.seq().len()
=== fn portgraph::iter NodePortOffsets::next_back of=DoubleEndedIterator assoc=Item:PortOffset
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().drop_last()); }
--- hint before return#1
proof { assert(self.seq() =~= old(self).seq().drop_last()); }
=== fn view PortView::num_inputs on=PortGraph
--- spec
requires self.wf(),
ensures r == (if self.has_node(node.i()) { self.m(node.i()).inc() } else { 0 }),
=== fn view PortView::num_outputs on=PortGraph
--- spec
requires self.wf(),
ensures r == (if self.has_node(node.i()) { self.m(node.i()).out() } else { 0 }),
=== fn portgraph::iter PortGraph::_port_offsets
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.doffs(node.i(), direction),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
--- hint end
proof { assert(__ret.seq() =~= self.doffs(node.i(), direction)); }
=== fn portgraph::iter PortGraph::_all_port_offsets
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.doffs(node.i(), Direction::Incoming) + self.doffs(node.i(), Direction::Outgoing),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); } }
=== default P=G02,G05
=== type portgraph::iter NodeLinks derive=none slit
=== raw links_iter
/// The pairs (ps[j], ls[j]) with a link ls[j] outside lo..hi, in order.
pub open spec fn nl(ps: Seq<PortIndex>, ls: Seq<MaybePortIndex>, lo: int, hi: int) -> Seq<(PortIndex, PortIndex)>
    decreases ls.len(),
{
    if ls.len() == 0 || ps.len() == 0 { Seq::empty() }
    else { nl(ps.drop_last(), ls.drop_last(), lo, hi) + nl1(ps.last(), ls.last(), lo, hi) }
}
pub open spec fn nl1(p: PortIndex, l: MaybePortIndex, lo: int, hi: int) -> Seq<(PortIndex, PortIndex)> {
    if !l.none() && !(lo <= l.i() < hi) { seq![(p, PortIndex(l.0))] } else { Seq::empty() }
}
pub proof fn lemma_nl(ps: Seq<PortIndex>, ls: Seq<MaybePortIndex>, lo: int, hi: int)
    requires ps.len() == ls.len(),
    ensures
        nl(ps, ls, lo, hi).len() <= ls.len(),
        ls.len() > 0 ==> nl(ps, ls, lo, hi) =~= nl1(ps[0], ls[0], lo, hi) + nl(ps.skip(1), ls.skip(1), lo, hi),
    decreases ls.len(),
{
    if ls.len() > 0 {
        lemma_nl(ps.drop_last(), ls.drop_last(), lo, hi);
        if ls.len() > 1 {
            assert(ps.skip(1).drop_last() =~= ps.drop_last().skip(1));
            assert(ls.skip(1).drop_last() =~= ls.drop_last().skip(1));
        }
    }
}
/// Every element of the list comes from a position, and every position with a link gives one.
pub proof fn lemma_nl_at(ps: Seq<PortIndex>, ls: Seq<MaybePortIndex>, lo: int, hi: int)
    requires ps.len() == ls.len(),
    ensures
        forall|k: int| #![trigger nl(ps, ls, lo, hi)[k]] 0 <= k < nl(ps, ls, lo, hi).len() ==> exists|j: int| 0 <= j < ls.len() && #[trigger] nl1(ps[j], ls[j], lo, hi) == seq![nl(ps, ls, lo, hi)[k]],
        forall|j: int| #![trigger ls[j]] 0 <= j < ls.len() && nl1(ps[j], ls[j], lo, hi).len() == 1 ==> nl(ps, ls, lo, hi).contains((ps[j], PortIndex(ls[j].0))),
    decreases ls.len(),
{
    if ls.len() > 0 {
        let (p, l) = (ps.drop_last(), ls.drop_last());
        lemma_nl_at(p, l, lo, hi);
        let s = nl(p, l, lo, hi); let t = nl(ps, ls, lo, hi);
        let n = ls.len() - 1;
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies exists|j: int| 0 <= j < ls.len() && #[trigger] nl1(ps[j], ls[j], lo, hi) == seq![t[k]] by {
            if k < s.len() { assert(t[k] == s[k]); let j = choose|j: int| 0 <= j < l.len() && #[trigger] nl1(p[j], l[j], lo, hi) == seq![s[k]]; assert(nl1(ps[j], ls[j], lo, hi) == seq![t[k]]); }
            else { assert(nl1(ps[n], ls[n], lo, hi) =~= seq![t[k]]); }
        }
        assert forall|j: int| #![trigger ls[j]] 0 <= j < ls.len() && nl1(ps[j], ls[j], lo, hi).len() == 1 implies t.contains((ps[j], PortIndex(ls[j].0))) by {
            if j == n { assert(t[s.len() as int] == (ps[n], PortIndex(ls[n].0))); }
            else { assert(l[j] == ls[j]); let k = choose|k: int| 0 <= k < s.len() && s[k] == (ps[j], PortIndex(ls[j].0)); assert(s.contains((ps[j], PortIndex(ls[j].0)))); assert(t[k] == s[k]); }
        }
    }
}
impl<'a> NodeLinks<'a> {
    pub open spec fn wf(self) -> bool {
        &&& self.links.ok()
        &&& forall|j: int| #![trigger self.links.b.s@[j]] 0 <= j < self.links.b.s@.len() ==> self.links.b.s@[j].wf()
    }
    pub open spec fn seq(self) -> Seq<(PortIndex, PortIndex)> { nl(self.links.a.seq(), self.links.b.rest(), self.ignore_target_ports.start as int, self.ignore_target_ports.end as int) }
    pub open spec fn left(self) -> int { self.links.b.hi - self.links.b.lo }
    /// No link is left out.
    pub open spec fn plain(self) -> bool { self.ignore_target_ports.start >= self.ignore_target_ports.end }
}
impl<'a> VIter for NodeLinks<'a> {
    type Item = (PortIndex, PortIndex);
    open spec fn rest(self) -> Seq<(PortIndex, PortIndex)> { self.seq() }
    open spec fn ok(self) -> bool { self.wf() }
    fn v_next(&mut self) -> (r: Option<(PortIndex, PortIndex)>) { self.next() }
}
impl<'a> VIntoIter for NodeLinks<'a> {
    type It = NodeLinks<'a>;
    open spec fn iok(self) -> bool { self.wf() }
    open spec fn irest(self) -> Seq<(PortIndex, PortIndex)> { self.seq() }
    open spec fn ieq(self, r: NodeLinks<'a>) -> bool { r == self }
    fn v_into_iter(self) -> (r: NodeLinks<'a>) { self }
}
impl PortGraph {
    /// The links at the ports of node n in a direction, in port order.
    pub open spec fn dlinks(self, n: int, d: Direction) -> Seq<(PortIndex, PortIndex)> {
        if self.has_node(n) { nl(self.dports(n, d), self.port_link@.subrange(self.m(n).at(d), self.m(n).at(d) + self.m(n).num(d)), 0, 0) } else { Seq::empty() }
    }
    /// All links at node n, in port order; a link of n with itself is listed once, at its output.
    pub open spec fn alinks(self, n: int) -> Seq<(PortIndex, PortIndex)> {
        if self.has_node(n) {
            nl(self.aports(n), self.port_link@.subrange(self.m(n).first(), self.m(n).first() + self.m(n).tot()), self.m(n).at(Direction::Outgoing), self.m(n).at(Direction::Outgoing) + self.m(n).out())
        } else { Seq::empty() }
    }
}
/// What the lists of links of a node contain.
pub proof fn theorem_links(g: PortGraph, n: int, d: Direction)
    requires g.wf(),
    ensures
        forall|k: int| #![trigger g.dlinks(n, d)[k]] 0 <= k < g.dlinks(n, d).len() ==> {
            let (a, b) = g.dlinks(n, d)[k];
            a.wf() && b.wf() && g.has_port(a.i()) && g.has_port(b.i()) && g.pnode(a.i()) == n && g.pdir(a.i()) == d && g.link(a.i()) == b.i()
        },
        forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.pdir(p) == d && g.link(p) >= 0 ==> g.dlinks(n, d).contains((PortIndex::mk(p), PortIndex::mk(g.link(p)))),
{
    if g.has_node(n) {
        lemma_node(g, n);
        let m = g.m(n); let a = m.at(d);
        let ps = g.dports(n, d); let ls = g.port_link@.subrange(a, a + m.num(d));
        lemma_nl_at(ps, ls, 0, 0);
        let s = g.dlinks(n, d);
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].0.wf() && s[k].1.wf() && g.has_port(s[k].0.i()) && g.has_port(s[k].1.i()) && g.pnode(s[k].0.i()) == n && g.pdir(s[k].0.i()) == d && g.link(s[k].0.i()) == s[k].1.i() by {
            let j = choose|j: int| 0 <= j < ls.len() && #[trigger] nl1(ps[j], ls[j], 0, 0) == seq![s[k]];
            assert(seq![s[k]].len() == 1 && seq![s[k]][0] == s[k]);
            assert(nl1(ps[j], ls[j], 0, 0)[0] == s[k]);
            let p = a + j;
            assert(g.pnode(p) == n);
            assert(ps[j] == PortIndex::mk(p) && ls[j] == g.port_link@[p]);
            assert(link_at(g.port_link@, g.port_meta@, p));
        }
        assert forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.pdir(p) == d && g.link(p) >= 0 implies s.contains((PortIndex::mk(p), PortIndex::mk(g.link(p)))) by {
            lemma_port(g, p);
            assert(link_at(g.port_link@, g.port_meta@, p));
            let j = p - a;
            assert(ls[j] == g.port_link@[p]);
            assert(ps[j] == PortIndex::mk(p));
            assert(nl1(ps[j], ls[j], 0, 0).len() == 1);
            assert(PortIndex(ls[j].0) == PortIndex::mk(g.link(p)));
        }
    } else {
        assert forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.link(p) >= 0 implies false by { lemma_port(g, p); }
    }
}
pub proof fn lemma_all_links_1(g: PortGraph, n: int)
    requires g.wf(),
    ensures
        forall|k: int| #![trigger g.alinks(n)[k]] 0 <= k < g.alinks(n).len() ==> {
            let (a, b) = g.alinks(n)[k];
            a.wf() && b.wf() && g.has_port(a.i()) && g.has_port(b.i()) && g.pnode(a.i()) == n && g.link(a.i()) == b.i() && (g.pnode(b.i()) == n ==> g.pdir(a.i()) == Direction::Outgoing)
        },
{
    if g.has_node(n) {
        lemma_node(g, n);
        let m = g.m(n); let a = m.first();
        let (lo, hi) = (m.at(Direction::Outgoing), m.at(Direction::Outgoing) + m.out());
        let ps = g.aports(n); let ls = g.port_link@.subrange(a, a + m.tot());
        lemma_nl_at(ps, ls, lo, hi);
        let s = g.alinks(n);
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].0.wf() && s[k].1.wf() && g.has_port(s[k].0.i()) && g.has_port(s[k].1.i()) && g.pnode(s[k].0.i()) == n && g.link(s[k].0.i()) == s[k].1.i()
            && (g.pnode(s[k].1.i()) == n ==> g.pdir(s[k].0.i()) == Direction::Outgoing) by {
            let j = choose|j: int| 0 <= j < ls.len() && #[trigger] nl1(ps[j], ls[j], lo, hi) == seq![s[k]];
            assert(seq![s[k]].len() == 1 && seq![s[k]][0] == s[k]);
            assert(nl1(ps[j], ls[j], lo, hi)[0] == s[k]);
            let p = a + j;
            let dd = if j < m.inc() { Direction::Incoming } else { Direction::Outgoing };
            assert(m.at(dd) <= p < m.at(dd) + m.num(dd));
            assert(g.pnode(p) == n);
            assert(ps[j] == PortIndex::mk(p) && ls[j] == g.port_link@[p]);
            assert(link_at(g.port_link@, g.port_meta@, p));
            lemma_port(g, s[k].1.i());
        }
    }
}
pub proof fn lemma_all_links_2(g: PortGraph, n: int)
    requires g.wf(),
    ensures
        forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.link(p) >= 0 && (g.pnode(g.link(p)) != n || g.pdir(p) == Direction::Outgoing) ==> g.alinks(n).contains((PortIndex::mk(p), PortIndex::mk(g.link(p)))),
{
    if g.has_node(n) {
        lemma_node(g, n);
        let m = g.m(n); let a = m.first();
        let (lo, hi) = (m.at(Direction::Outgoing), m.at(Direction::Outgoing) + m.out());
        let ps = g.aports(n); let ls = g.port_link@.subrange(a, a + m.tot());
        lemma_nl_at(ps, ls, lo, hi);
        let s = g.alinks(n);
        assert forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.link(p) >= 0 && (g.pnode(g.link(p)) != n || g.pdir(p) == Direction::Outgoing) implies s.contains((PortIndex::mk(p), PortIndex::mk(g.link(p)))) by {
            lemma_port(g, p);
            assert(link_at(g.port_link@, g.port_meta@, p));
            let q = g.link(p);
            lemma_port(g, q);
            if lo <= q < hi { assert(g.pnode(q) == n); assert(false); }
            let j = p - a;
            assert(ls[j] == g.port_link@[p]);
            assert(ps[j] == PortIndex::mk(p));
            assert(nl1(ps[j], ls[j], lo, hi).len() == 1);
            assert(PortIndex(ls[j].0) == PortIndex::mk(q));
        }
    } else {
        assert forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.link(p) >= 0 implies false by { lemma_port(g, p); }
    }
}
pub proof fn theorem_all_links(g: PortGraph, n: int)
    requires g.wf(),
    ensures
        forall|k: int| #![trigger g.alinks(n)[k]] 0 <= k < g.alinks(n).len() ==> {
            let (a, b) = g.alinks(n)[k];
            a.wf() && b.wf() && g.has_port(a.i()) && g.has_port(b.i()) && g.pnode(a.i()) == n && g.link(a.i()) == b.i() && (g.pnode(b.i()) == n ==> g.pdir(a.i()) == Direction::Outgoing)
        },
        forall|p: int| #![trigger g.link(p)] g.has_port(p) && g.pnode(p) == n && g.link(p) >= 0 && (g.pnode(g.link(p)) != n || g.pdir(p) == Direction::Outgoing) ==> g.alinks(n).contains((PortIndex::mk(p), PortIndex::mk(g.link(p)))),
{ lemma_all_links_1(g, n); lemma_all_links_2(g, n); }
=== fn portgraph::iter NodeLinks::new slit on=NodeLinks<'a> impl=<'a>
--- spec
requires ports.wf(), ports.seq().len() == links@.len(),
    forall|j: int| #![trigger links@[j]] 0 <= j < links@.len() ==> links@[j].wf(),
ensures r.wf(), r.seq() == nl(ports.seq(), links@, ignore_target_ports.start as int, ignore_target_ports.end as int),
=== fn portgraph::iter NodeLinks::next of=Iterator assoc=Item:(PortIndex,PortIndex) on=NodeLinks<'_> slit tryopt loops=1
--- spec
requires old(self).wf(),
ensures final(self).wf(), final(self).left() <= old(self).left(),
    match r {
        Some(x) => x.0.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
    r is Some ==> final(self).left() < old(self).left(),
--- loop 0
invariant self.wf(), self.seq() == old(self).seq(), self.left() <= old(self).left(), self.ignore_target_ports == old(self).ignore_target_ports,
decreases self.left(),
--- hint loop0.start
let ghost (ps, ls) = (self.links.a.seq(), self.links.b.rest());
proof { lemma_nl(ps, ls, self.ignore_target_ports.start as int, self.ignore_target_ports.end as int); if ls.len() > 0 { assert(ls[0] == self.links.b.s@[self.links.b.lo as int]); } }
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().skip(1)); }
=== fn portgraph::iter NodeLinks::size_hint of=Iterator on=NodeLinks<'_>
--- spec
requires self.wf(),
ensures r.0 == 0, r.1 matches Some(x) ==> x >= self.seq().len(),
--- hint start
proof { lemma_nl(self.links.a.seq(), self.links.b.rest(), self.ignore_target_ports.start as int, self.ignore_target_ports.end as int); }
=== raw wf_links
pub proof fn lemma_links_wf(g: PortGraph, n: int)
    requires g.wf(), g.has_node(n),
    ensures forall|j: int| #![trigger g.port_link@[j]] g.m(n).first() <= j < g.m(n).first() + g.m(n).tot() ==> g.port_link@[j].wf(), g.m(n).first() + g.m(n).tot() <= g.port_link@.len(),
{
    lemma_node(g, n);
    let m = g.m(n);
    assert forall|j: int| #![trigger g.port_link@[j]] m.first() <= j < m.first() + m.tot() implies g.port_link@[j].wf() by {
        let d = if j < m.first() + m.inc() { Direction::Incoming } else { Direction::Outgoing };
        assert(m.at(d) <= j < m.at(d) + m.num(d)); assert(g.pnode(j) == n);
        if linked(g.port_link@, j) { assert(link_at(g.port_link@, g.port_meta@, j)); }
    }
}
=== fn portgraph::iter PortGraph::_links slix=port_link
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dlinks(node.i(), direction),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); lemma_links_wf(*self, node.i()); } }
=== fn portgraph::iter PortGraph::_all_links slix=port_link
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.alinks(node.i()),
--- hint start
proof { if self.has_node(node.i()) { lemma_node(*self, node.i()); lemma_links_wf(*self, node.i()); } }

=== raw links_order
/// Every port is listed at most once on the left.
pub proof fn lemma_nl_order(a: int, b: int, ls: Seq<MaybePortIndex>, lo: int, hi: int)
    requires 0 <= a, b <= max_ix() + 1, ls.len() == pseq(a, b).len(),
    ensures
        forall|k: int| #![trigger nl(pseq(a, b), ls, lo, hi)[k]] 0 <= k < nl(pseq(a, b), ls, lo, hi).len() ==> a <= nl(pseq(a, b), ls, lo, hi)[k].0.i() < b,
        forall|j: int, k: int| #![trigger nl(pseq(a, b), ls, lo, hi)[j], nl(pseq(a, b), ls, lo, hi)[k]] 0 <= j < k < nl(pseq(a, b), ls, lo, hi).len() ==> nl(pseq(a, b), ls, lo, hi)[j].0.i() < nl(pseq(a, b), ls, lo, hi)[k].0.i(),
    decreases ls.len(),
{
    if ls.len() > 0 {
        assert(pseq(a, b).drop_last() =~= pseq(a, b - 1));
        lemma_nl_order(a, b - 1, ls.drop_last(), lo, hi);
        let s = nl(pseq(a, b - 1), ls.drop_last(), lo, hi); let t = nl(pseq(a, b), ls, lo, hi);
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies a <= t[k].0.i() < b by { if k < s.len() { assert(t[k] == s[k]); } }
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < k < t.len() implies t[j].0.i() < t[k].0.i() by { assert(t[j] == s[j]); if k < s.len() { assert(t[k] == s[k]); } }
    }
}
pub proof fn theorem_links_once(g: PortGraph, n: int, d: Direction)
    requires g.wf(),
    ensures
        forall|j: int, k: int| #![trigger g.dlinks(n, d)[j], g.dlinks(n, d)[k]] 0 <= j < k < g.dlinks(n, d).len() ==> g.dlinks(n, d)[j].0.i() < g.dlinks(n, d)[k].0.i(),
        forall|j: int, k: int| #![trigger g.alinks(n)[j], g.alinks(n)[k]] 0 <= j < k < g.alinks(n).len() ==> g.alinks(n)[j].0.i() < g.alinks(n)[k].0.i(),
        forall|j: int, k: int| #![trigger g.alinks(n)[j], g.alinks(n)[k]] 0 <= j < g.alinks(n).len() && 0 <= k < g.alinks(n).len() ==> g.alinks(n)[j].1.i() != g.alinks(n)[k].0.i(),
{
    if g.has_node(n) {
        lemma_node(g, n);
        let m = g.m(n);
        lemma_nl_order(m.at(d), m.at(d) + m.num(d), g.port_link@.subrange(m.at(d), m.at(d) + m.num(d)), 0, 0);
        lemma_nl_order(m.first(), m.first() + m.tot(), g.port_link@.subrange(m.first(), m.first() + m.tot()), m.at(Direction::Outgoing), m.at(Direction::Outgoing) + m.out());
        theorem_all_links(g, n);
        let s = g.alinks(n);
        assert forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < s.len() && 0 <= k < s.len() implies s[j].1.i() != s[k].0.i() by {
            if s[j].1.i() == s[k].0.i() {
                let p = s[j].0.i(); let q = s[k].0.i();
                assert(g.link(p) == q && g.pnode(q) == n);
                assert(link_at(g.port_link@, g.port_meta@, p));
                assert(g.link(q) == p);
            }
        }
    }
}
=== type portgraph::iter Neighbours derive=none slit
=== type portgraph::iter NodeConnections derive=none slit
=== raw neighbours_iter
/// The nodes at the far ends of a list of links.
pub open spec fn far(g: PortGraph, s: Seq<(PortIndex, PortIndex)>) -> Seq<NodeIndex> { Seq::new(s.len(), |j: int| NodeIndex::mk(g.pnode(s[j].1.i()))) }
/// The links whose far end is at node t.
pub open spec fn to_node(g: PortGraph, s: Seq<(PortIndex, PortIndex)>, t: int) -> Seq<(PortIndex, PortIndex)>
    decreases s.len(),
{ if s.len() == 0 { s } else { to_node(g, s.drop_last(), t) + (if g.pnode(s.last().1.i()) == t { seq![s.last()] } else { Seq::empty() }) } }
pub proof fn lemma_to_node(g: PortGraph, s: Seq<(PortIndex, PortIndex)>, t: int)
    ensures
        to_node(g, s, t).len() <= s.len(),
        s.len() > 0 ==> to_node(g, s, t) =~= (if g.pnode(s[0].1.i()) == t { seq![s[0]] } else { Seq::empty() }) + to_node(g, s.skip(1), t),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_to_node(g, s.drop_last(), t);
        if s.len() > 1 { assert(s.skip(1).drop_last() =~= s.drop_last().skip(1)); }
    }
}
pub open spec fn ends_ok(g: PortGraph, s: Seq<(PortIndex, PortIndex)>) -> bool { forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j].1.wf() && g.has_port(s[j].1.i()) }
impl<'a> Neighbours<'a> {
    pub open spec fn wf(self) -> bool { self.graph.wf() && self.linked_ports.wf() && ends_ok(*self.graph, self.linked_ports.seq()) }
    pub open spec fn seq(self) -> Seq<NodeIndex> { far(*self.graph, self.linked_ports.seq()) }
}
impl<'a> NodeConnections<'a> {
    pub open spec fn wf(self) -> bool { self.graph.wf() && self.target.wf() && self.port_links.wf() && ends_ok(*self.graph, self.port_links.seq()) }
    pub open spec fn seq(self) -> Seq<(PortIndex, PortIndex)> { to_node(*self.graph, self.port_links.seq(), self.target.i()) }
}
impl PortGraph {
    /// The links from node a (at outputs) to node b.
    pub open spec fn conns(self, a: int, b: int) -> Seq<(PortIndex, PortIndex)> { to_node(self, self.dlinks(a, Direction::Outgoing), b) }
}
impl<'a> VIter for Neighbours<'a> {
    type Item = NodeIndex;
    open spec fn rest(self) -> Seq<NodeIndex> { self.seq() }
    open spec fn ok(self) -> bool { self.wf() }
    fn v_next(&mut self) -> (r: Option<NodeIndex>) { self.next() }
}
impl<'a> VIter for NodeConnections<'a> {
    type Item = (PortIndex, PortIndex);
    open spec fn rest(self) -> Seq<(PortIndex, PortIndex)> { self.seq() }
    open spec fn ok(self) -> bool { self.wf() }
    fn v_next(&mut self) -> (r: Option<(PortIndex, PortIndex)>) { self.next() }
}
=== fn portgraph::iter Neighbours::from_node_links on=Neighbours<'a> impl=<'a>
--- spec
requires graph.wf(), links.wf(), ends_ok(*graph, links.seq()),
ensures r.wf(), r.seq() == far(*graph, links.seq()),
=== fn portgraph::iter Neighbours::next of=Iterator assoc=Item:NodeIndex on=Neighbours<'_>
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint end
proof { let s = old(self).linked_ports.seq(); if __ret is Some { assert(self.linked_ports.seq() == s.skip(1)); assert(self.seq() =~= old(self).seq().skip(1)); } }
=== fn portgraph::iter Neighbours::size_hint of=Iterator on=Neighbours<'_>
--- spec
requires self.wf(),
ensures r.0 == 0, r.1 matches Some(x) ==> x >= self.seq().len(),
=== fn portgraph::iter NodeConnections::new on=NodeConnections<'a> impl=<'a>
--- spec
requires graph.wf(), target.wf(), links.wf(), ends_ok(*graph, links.seq()),
ensures r.wf(), r.seq() == to_node(*graph, links.seq(), target.i()),
=== fn portgraph::iter NodeConnections::next of=Iterator assoc=Item:(PortIndex,PortIndex) on=NodeConnections<'_> loops=1
--- spec
requires old(self).wf(),
ensures final(self).wf(),
    match r {
        Some(x) => old(self).seq().len() > 0 && x == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- loop 0
invariant self.wf(), self.graph == old(self).graph, self.target == old(self).target, self.seq() == old(self).seq(),
decreases self.port_links.left(),
--- hint loop0.start
let ghost s = self.port_links.seq();
proof { lemma_to_node(*self.graph, s, self.target.i()); }
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().skip(1)); }
=== fn portgraph::iter NodeConnections::size_hint of=Iterator on=NodeConnections<'_>
--- spec
requires self.wf(),
ensures r.0 == 0, r.1 matches Some(x) ==> x >= self.seq().len(),
--- hint start
proof { lemma_to_node(*self.graph, self.port_links.seq(), self.target.i()); }
=== fn portgraph::iter PortGraph::_neighbours
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == far(*self, self.dlinks(node.i(), direction)),
--- hint start
proof { theorem_links(*self, node.i(), direction); }
=== fn portgraph::iter PortGraph::_all_neighbours
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == far(*self, self.alinks(node.i())),
--- hint start
proof { theorem_all_links(*self, node.i()); }
=== fn portgraph::iter PortGraph::_get_connections
--- spec
requires self.wf(), from.wf(), to.wf(),
ensures r.wf(), r.seq() == self.conns(from.i(), to.i()),
--- hint start
proof { theorem_links(*self, from.i(), Direction::Outgoing); }
=== fn portgraph PortGraph::port_links slit rettype=VOpt<(PortIndex,PortIndex)>
--- spec
requires self.wf(), port.wf(), self.has_port(port.i()),
ensures
    r.o == (if self.link(port.i()) >= 0 { Some((port, PortIndex::mk(self.link(port.i())))) } else { None::<(PortIndex, PortIndex)> }),
    r.o matches Some((a, b)) ==> b.wf() && b.i() == self.link(port.i()) && self.has_port(b.i()),
--- hint start
proof { let p = port.i(); lemma_port(*self, p); if linked(self.port_link@, p) { assert(link_at(self.port_link@, self.port_meta@, p)); } }
=== fn view LinkView::get_connection on=PortGraph assoc=LinkEndpoint:PortIndex
--- spec
requires self.wf(), from.wf(), to.wf(),
ensures r == (if self.conns(from.i(), to.i()).len() > 0 { Some(self.conns(from.i(), to.i())[0]) } else { None::<(PortIndex, PortIndex)> }),
=== fn view LinkView::connected on=PortGraph
--- spec
requires self.wf(), from.wf(), to.wf(),
ensures r == (self.conns(from.i(), to.i()).len() > 0),
=== fn view LinkView::port_link on=PortGraph assoc=LinkEndpoint:PortIndex
--- spec
requires self.wf(), port.wf(), self.has_port(port.i()),
ensures
    r == (if self.link(port.i()) >= 0 { Some(PortIndex::mk(self.link(port.i()))) } else { None::<PortIndex> }),
=== fn portgraph PortGraph::ports rettype=NodePorts
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dports(node.i(), direction),
=== fn portgraph PortGraph::all_ports rettype=NodePorts
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.aports(node.i()),
=== fn portgraph PortGraph::port_offsets rettype=NodePortOffsets
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.doffs(node.i(), direction),
=== fn portgraph PortGraph::all_port_offsets rettype=NodePortOffsets
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.doffs(node.i(), Direction::Incoming) + self.doffs(node.i(), Direction::Outgoing),
=== fn portgraph PortGraph::nodes_iter rettype=Nodes<'_>
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.nodes(),
=== fn portgraph PortGraph::ports_iter rettype=Ports<'_>
--- spec
requires self.wf(),
ensures r.wf(), r.seq() == self.ports_(),
=== fn portgraph PortGraph::links rettype=NodeLinks<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dlinks(node.i(), direction),
=== fn portgraph PortGraph::all_links rettype=NodeLinks<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.alinks(node.i()),
=== fn portgraph PortGraph::neighbours rettype=Neighbours<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == far(*self, self.dlinks(node.i(), direction)),
=== fn portgraph PortGraph::all_neighbours rettype=Neighbours<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == far(*self, self.alinks(node.i())),
=== fn portgraph PortGraph::get_connections rettype=NodeConnections<'_>
--- spec
requires self.wf(), from.wf(), to.wf(),
ensures r.wf(), r.seq() == self.conns(from.i(), to.i()),
=== fn view PortView::inputs on=PortGraph rettype=NodePorts
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dports(node.i(), Direction::Incoming),
=== fn view PortView::outputs on=PortGraph rettype=NodePorts
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dports(node.i(), Direction::Outgoing),
=== fn view PortView::input_offsets on=PortGraph rettype=NodePortOffsets
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.doffs(node.i(), Direction::Incoming),
=== fn view PortView::output_offsets on=PortGraph rettype=NodePortOffsets
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.doffs(node.i(), Direction::Outgoing),
=== fn view LinkView::input_links on=PortGraph rettype=NodeLinks<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dlinks(node.i(), Direction::Incoming),
=== fn view LinkView::output_links on=PortGraph rettype=NodeLinks<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == self.dlinks(node.i(), Direction::Outgoing),
=== fn view LinkView::input_neighbours on=PortGraph rettype=Neighbours<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == far(*self, self.dlinks(node.i(), Direction::Incoming)),
=== fn view LinkView::output_neighbours on=PortGraph rettype=Neighbours<'_>
--- spec
requires self.wf(), node.wf(),
ensures r.wf(), r.seq() == far(*self, self.dlinks(node.i(), Direction::Outgoing)),
=== fn portgraph::iter NodeLinks::next_back of=DoubleEndedIterator assoc=Item:(PortIndex,PortIndex) on=NodeLinks<'_> loops=1
--- spec
requires old(self).wf(), old(self).plain(),
ensures final(self).wf(), final(self).plain(), final(self).left() <= old(self).left(),
    match r {
        Some(x) => x.0.wf() && old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
    r is Some ==> final(self).left() < old(self).left(),
--- loop 0
invariant self.wf(), self.plain(), self.seq() == old(self).seq(), self.left() <= old(self).left(), self.ignore_target_ports == old(self).ignore_target_ports,
decreases self.left(),
--- hint loop0.start
let ghost (ps, ls) = (self.links.a.seq(), self.links.b.rest());
proof { if ls.len() > 0 { assert(ls.last() == self.links.b.s@[self.links.b.hi - 1]); } }
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().drop_last()); }
=== fn portgraph::iter Neighbours::next_back of=DoubleEndedIterator assoc=Item:NodeIndex on=Neighbours<'_>
--- spec
requires old(self).wf(), old(self).linked_ports.plain(),
ensures final(self).wf(),
    match r {
        Some(x) => x.wf() && old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- hint end
proof { let s = old(self).linked_ports.seq(); if __ret is Some { assert(self.linked_ports.seq() == s.drop_last()); assert(self.seq() =~= old(self).seq().drop_last()); } }
=== fn portgraph::iter NodeConnections::next_back of=DoubleEndedIterator assoc=Item:(PortIndex,PortIndex) on=NodeConnections<'_> loops=1
--- spec
requires old(self).wf(), old(self).port_links.plain(),
ensures final(self).wf(),
    match r {
        Some(x) => old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() == old(self).seq().drop_last(),
        None => old(self).seq().len() == 0 && final(self).seq() == old(self).seq(),
    },
--- loop 0
invariant self.wf(), self.port_links.plain(), self.graph == old(self).graph, self.target == old(self).target, self.seq() == old(self).seq(),
decreases self.port_links.left(),
--- hint before return#0
proof { assert(self.seq() =~= old(self).seq().drop_last()); }
