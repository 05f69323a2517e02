=== default P=H01,H02
=== const index MaybeNodeIndex::NONE
=== raw bitfield_as_mut
impl BitField_u32 {
    /// `AsMut` by pointer cast (the types are transparent wrappers): assumed.
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: &mut NodeIndex)
        ensures *r == NodeIndex(*old(self)), *final(self) == (*final(r)).0,
    { unimplemented!() }
}
=== fn index MaybeNodeIndex::as_mut
--- spec
ensures
    match r {
        Some(x) => !old(self).none() && *x == NodeIndex(old(self).0) && *final(self) == MaybeNodeIndex::some(*final(x)),
        None => old(self).none() && *final(self) == *old(self),
    },
=== type hierarchy NodeData derive=Clone,Copy
=== type hierarchy AttachError derive=none
=== type hierarchy Hierarchy derive=none
=== raw hier_spec
/// -1 for none
pub open spec fn ix(m: MaybeNodeIndex) -> int { if m.none() { -1 } else { m.0.0 as int } }
pub proof fn lemma_ix(m: MaybeNodeIndex, k: MaybeNodeIndex)
    requires ix(m) == ix(k), ensures m == k,
{ assert(m.0.0 == k.0.0); }
impl NodeData {
    pub open spec fn fst(self) -> int { ix(self.children@[0]) }
    pub open spec fn lst(self) -> int { ix(self.children@[1]) }
    pub open spec fn prv(self) -> int { ix(self.siblings@[0]) }
    pub open spec fn nxt(self) -> int { ix(self.siblings@[1]) }
    pub open spec fn par(self) -> int { ix(self.parent) }
    pub open spec fn cnt(self) -> int { self.children_count as int }
    pub open spec fn empty(self) -> bool {
        self.fst() == -1 && self.lst() == -1 && self.prv() == -1 && self.nxt() == -1 && self.par() == -1 && self.cnt() == 0
    }
    pub open spec fn same(self, o: NodeData) -> bool {
        &&& self.fst() == o.fst() && self.lst() == o.lst() && self.prv() == o.prv() && self.nxt() == o.nxt()
        &&& self.par() == o.par() && self.cnt() == o.cnt()
    }
    /// `PartialEq`, derived
    pub fn v_eq(&self, o: &NodeData) -> (r: bool) ensures r == self.same(*o), {
        proof {
            lemma_bits(self.children@[0], o.children@[0]); lemma_bits(self.children@[1], o.children@[1]);
            lemma_bits(self.siblings@[0], o.siblings@[0]); lemma_bits(self.siblings@[1], o.siblings@[1]);
            lemma_bits(self.parent, o.parent);
        }
        self.children[0].0.0 == o.children[0].0.0 && self.children[1].0.0 == o.children[1].0.0 && self.children_count == o.children_count && self.parent.0.0 == o.parent.0.0
            && self.siblings[0].0.0 == o.siblings[0].0.0 && self.siblings[1].0.0 == o.siblings[1].0.0
    }
    pub open spec fn wf(self) -> bool {
        self.children@[0].wf() && self.children@[1].wf() && self.siblings@[0].wf() && self.siblings@[1].wf() && self.parent.wf()
    }
}
pub proof fn lemma_bits(m: MaybeNodeIndex, k: MaybeNodeIndex)
    ensures (ix(m) == ix(k)) == (m.0.0 == k.0.0),
{ }
impl VVal for NodeData { fn v_clone(&self) -> (r: NodeData) { *self } }
impl VDefault for NodeData {
    open spec fn dflt() -> NodeData { NodeData { children: [MaybeNodeIndex::spec_none(), MaybeNodeIndex::spec_none()], children_count: 0, parent: MaybeNodeIndex::spec_none(), siblings: [MaybeNodeIndex::spec_none(), MaybeNodeIndex::spec_none()] } }
    fn vdefault() -> (r: NodeData) { NodeData::default() }
}
impl VValD for NodeData {}
impl VDefault for [MaybeNodeIndex; 2] {
    open spec fn dflt() -> [MaybeNodeIndex; 2] { [MaybeNodeIndex::spec_none(), MaybeNodeIndex::spec_none()] }
    fn vdefault() -> (r: [MaybeNodeIndex; 2]) { [MaybeNodeIndex::default(), MaybeNodeIndex::default()] }
}
/// The ordered forest: the children of every node; the place of every child; a rank that decreases towards the root.
pub struct Tree { pub ch: spec_fn(int) -> Seq<int>, pub pos: spec_fn(int) -> int, pub rk: spec_fn(int) -> int }
pub open spec fn top() -> int { 0x7fff_fffe }
pub open spec fn isn(x: int) -> bool { 0 <= x <= top() }
impl Hierarchy {
    #[verifier::inline]
    pub open spec fn d(self, i: int) -> NodeData { self.data.at(i) }
    pub open spec fn wf_c(self) -> bool {
        &&& self.data.default.empty()
        &&& self.data.data.len() <= top() + 1
        &&& forall|i: int| #![trigger self.d(i)] self.d(i).wf()
    }
    pub open spec fn wf_ch(self, t: Tree, i: int) -> bool {
        let s = (t.ch)(i);
        &&& self.d(i).cnt() == s.len()
        &&& self.d(i).fst() == (if s.len() > 0 { s[0] } else { -1 })
        &&& self.d(i).lst() == (if s.len() > 0 { s[s.len() - 1] } else { -1 })
    }
    pub open spec fn wf_at(self, t: Tree, i: int, k: int) -> bool {
        let s = (t.ch)(i);
        let c = s[k];
        &&& isn(c)
        &&& self.d(c).par() == i
        &&& self.d(c).prv() == (if k > 0 { s[k - 1] } else { -1 })
        &&& self.d(c).nxt() == (if k + 1 < s.len() { s[k + 1] } else { -1 })
        &&& (t.pos)(c) == k
    }
    pub open spec fn wf_up(self, t: Tree, x: int) -> bool {
        let p = self.d(x).par();
        &&& p == -1 ==> self.d(x).prv() == -1 && self.d(x).nxt() == -1
        &&& p >= 0 ==> 0 <= (t.pos)(x) < (t.ch)(p).len() && (t.ch)(p)[(t.pos)(x)] == x && (t.rk)(p) < (t.rk)(x)
        &&& (t.rk)(x) >= 0
    }
    pub open spec fn wf_t(self, t: Tree) -> bool {
        &&& self.wf_c()
        &&& forall|i: int| #[trigger] self.wf_ch(t, i)
        &&& forall|i: int, k: int| #![trigger self.wf_at(t, i, k)] 0 <= k < (t.ch)(i).len() ==> self.wf_at(t, i, k)
        &&& forall|x: int| #[trigger] self.wf_up(t, x)
    }
    /// The hierarchy is an ordered forest.
    pub open spec fn wf(self) -> bool { exists|t: Tree| #[trigger] self.wf_t(t) }
    pub open spec fn tree(self) -> Tree { choose|t: Tree| #[trigger] self.wf_t(t) }
    /// The children of a node, in order.
    pub open spec fn kids(self, i: int) -> Seq<int> { (self.tree().ch)(i) }
    pub open spec fn par(self, i: int) -> int { self.d(i).par() }
    /// The k-th ancestor, or -1.
    pub open spec fn anc(self, x: int, k: nat) -> int
        decreases k,
    {
        if k == 0 { x } else if self.par(x) >= 0 { self.anc(self.par(x), (k - 1) as nat) } else { -1 }
    }
    /// x is n or a descendant of n.
    pub open spec fn under(self, x: int, n: int) -> bool { exists|k: nat| #[trigger] self.anc(x, k) == n }
    /// Every query is unchanged.
    pub open spec fn same(self, o: Hierarchy) -> bool {
        forall|x: int| #![trigger self.d(x)] #![trigger o.d(x)] self.d(x).same(o.d(x))
    }
}
pub proof fn lemma_kids(h: Hierarchy, t: Tree)
    requires h.wf_t(t),
    ensures forall|i: int| #![trigger h.kids(i)] #![trigger (t.ch)(i)] h.kids(i) == (t.ch)(i), h.wf_t(h.tree()), h.wf(),
{
    let u = h.tree();
    assert forall|i: int| #![trigger h.kids(i)] #![trigger (t.ch)(i)] h.kids(i) == (t.ch)(i) by {
        let n = (t.ch)(i).len() as int;
        assert(h.wf_ch(t, i) && h.wf_ch(u, i));
        lemma_kids_k(h, t, u, i, n);
        assert((u.ch)(i) =~= (t.ch)(i));
    }
}
pub proof fn lemma_kids_k(h: Hierarchy, t: Tree, u: Tree, i: int, n: int)
    requires h.wf_t(t), h.wf_t(u), 0 <= n <= (t.ch)(i).len(),
    ensures forall|k: int| 0 <= k < n ==> #[trigger] (t.ch)(i)[k] == (u.ch)(i)[k], (t.ch)(i).len() == (u.ch)(i).len(),
    decreases n,
{
    assert(h.wf_ch(t, i) && h.wf_ch(u, i));
    if n > 0 {
        lemma_kids_k(h, t, u, i, n - 1);
        if n > 1 {
            assert(h.wf_at(t, i, n - 2));
            assert(h.wf_at(u, i, n - 2));
        }
    }
}
/// Elements of a duplicate-free sequence of node indices.
pub proof fn lemma_few(t: Tree, h: Hierarchy, i: int)
    requires h.wf_t(t),
    ensures (t.ch)(i).len() <= top() + 1,
{
    let s = (t.ch)(i);
    assert(s.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
            assert(h.wf_at(t, i, a));
            assert(h.wf_at(t, i, b));
        }
    }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, top() + 1);
    assert(s.to_set().subset_of(vstd::set_lib::set_int_range(0, top() + 1))) by {
        assert forall|x: int| s.to_set().contains(x) implies vstd::set_lib::set_int_range(0, top() + 1).contains(x) by {
            let k = s.index_of(x);
            assert(h.wf_at(t, i, k));
        }
    }
    vstd::set_lib::lemma_len_subset(s.to_set(), vstd::set_lib::set_int_range(0, top() + 1));
}
// ---- ancestors ----
pub proof fn lemma_under(h: Hierarchy, x: int, n: int)
    requires n >= 0,
    ensures h.under(x, n) == (x == n || (h.par(x) >= 0 && h.under(h.par(x), n))),
{
    if h.under(x, n) {
        let k = choose|k: nat| #[trigger] h.anc(x, k) == n;
        if k > 0 { assert(h.anc(h.par(x), (k - 1) as nat) == n); }
    }
    if x == n { assert(h.anc(x, 0) == n); }
    if h.par(x) >= 0 && h.under(h.par(x), n) {
        let k = choose|k: nat| #[trigger] h.anc(h.par(x), k) == n;
        assert(h.anc(x, k + 1) == n);
    }
}
pub proof fn lemma_anc_kid(h: Hierarchy, t: Tree, x: int, k: nat, n: int)
    requires h.wf_t(t), n >= 0, h.anc(x, k) == n, x != n,
    ensures (t.ch)(n).len() > 0,
    decreases k,
{
    assert(h.wf_up(t, x));
    if h.par(x) == n {
    } else if h.par(x) >= 0 {
        lemma_anc_kid(h, t, h.par(x), (k - 1) as nat, n);
    }
}
pub proof fn lemma_no_kid(h: Hierarchy, t: Tree, x: int, n: int)
    requires h.wf_t(t), n >= 0, (t.ch)(n).len() == 0,
    ensures h.under(x, n) == (x == n),
{
    lemma_under(h, x, n);
    if h.under(x, n) && x != n {
        let k = choose|k: nat| #[trigger] h.anc(x, k) == n;
        lemma_anc_kid(h, t, x, k, n);
    }
}
// ---- attaching ----
/// n was attached to p between its children a and b (-1: none).
pub open spec fn ins(h0: Hierarchy, h1: Hierarchy, p: int, n: int, a: int, b: int) -> bool {
    &&& h1.wf_c()
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] {
        &&& h1.d(x).par() == (if x == n { p } else { h0.d(x).par() })
        &&& h1.d(x).cnt() == (if x == p { h0.d(x).cnt() + 1 } else { h0.d(x).cnt() })
        &&& h1.d(x).fst() == (if x == p && a < 0 { n } else { h0.d(x).fst() })
        &&& h1.d(x).lst() == (if x == p && b < 0 { n } else { h0.d(x).lst() })
        &&& h1.d(x).prv() == (if x == n { a } else if x == b && b >= 0 { n } else { h0.d(x).prv() })
        &&& h1.d(x).nxt() == (if x == n { b } else if x == a && a >= 0 { n } else { h0.d(x).nxt() })
    }
}
/// The forest with n inserted as k-th child of p.
pub open spec fn ins_kids(h0: Hierarchy, h1: Hierarchy, p: int, n: int, k: int) -> bool {
    &&& h1.wf()
    &&& 0 <= k <= h0.kids(p).len()
    &&& forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == (if i == p { h0.kids(p).insert(k, n) } else { h0.kids(i) })
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.par(x) == (if x == n { p } else { h0.par(x) })
}
pub open spec fn t_ins(h0: Hierarchy, t: Tree, p: int, n: int, k: int) -> Tree {
    Tree {
        ch: |i: int| if i == p { (t.ch)(p).insert(k, n) } else { (t.ch)(i) },
        pos: |x: int| if x == n { k } else if h0.par(x) == p && (t.pos)(x) >= k { (t.pos)(x) + 1 } else { (t.pos)(x) },
        rk: |x: int| if h0.under(x, n) { (t.rk)(x) + (t.rk)(p) + 1 } else { (t.rk)(x) },
    }
}
pub proof fn lemma_ins(h0: Hierarchy, h1: Hierarchy, t: Tree, p: int, n: int, k: int, a: int, b: int)
    requires
        h0.wf_t(t), ins(h0, h1, p, n, a, b), isn(p), isn(n), h0.par(n) == -1, !h0.under(p, n),
        0 <= k <= (t.ch)(p).len(),
        a == (if k > 0 { (t.ch)(p)[k - 1] } else { -1 }),
        b == (if k < (t.ch)(p).len() { (t.ch)(p)[k] } else { -1 }),
    ensures ins_kids(h0, h1, p, n, k),
{
    let t1 = t_ins(h0, t, p, n, k);
    let s = (t.ch)(p);
    lemma_under(h0, p, n);
    assert(h0.wf_ch(t, p) && h0.wf_up(t, p) && h0.wf_up(t, n));
    if k > 0 { assert(h0.wf_at(t, p, k - 1)) }
    if k < s.len() { assert(h0.wf_at(t, p, k)) }
    assert forall|i: int| #[trigger] h1.wf_ch(t1, i) by { assert(h0.wf_ch(t, i)) }
    assert forall|i: int, j: int| #![trigger h1.wf_at(t1, i, j)] 0 <= j < (t1.ch)(i).len() implies h1.wf_at(t1, i, j) by {
        let c = (t1.ch)(i)[j];
        let z = h1.d(c);
        assert(h1.d(c).par() == (if c == n { p } else { h0.d(c).par() }));
        if i == p {
            let s1 = s.insert(k, n);
            assert((t1.ch)(i) == s1);
            assert(s1.len() == s.len() + 1);
            assert(forall|q: int| 0 <= q < s1.len() ==> s1[q] == (if q < k { s[q] } else if q == k { n } else { s[q - 1] }));
            if j == k {
                assert(h1.wf_at(t1, i, j));
            } else {
                let jo = if j < k { j } else { j - 1 };
                assert(h0.wf_at(t, p, jo));
                assert(s[jo] == c);
                if jo > 0 { assert(h0.wf_at(t, p, jo - 1)); }
                if jo + 1 < s.len() { assert(h0.wf_at(t, p, jo + 1)); }
                assert(c != n);
                assert(c == a <==> jo == k - 1);
                assert(c == b <==> jo == k);
            }
            assert(isn(c));
            assert(h1.d(c).par() == i);
            assert(h1.d(c).prv() == (if j > 0 { s1[j - 1] } else { -1 }));
            assert(h1.d(c).nxt() == (if j + 1 < s1.len() { s1[j + 1] } else { -1 }));
            assert((t1.pos)(c) == j);
        } else {
            assert(h0.wf_at(t, i, j) && h0.wf_ch(t, i));
            assert(isn(c));
            assert(h1.d(c).par() == i);
            assert(h1.wf_at(t1, i, j));
        }
    }
    assert forall|x: int| #[trigger] h1.wf_up(t1, x) by {
        assert(h0.wf_up(t, x));
        lemma_under(h0, x, n);
        let q = h0.par(x);
        if q >= 0 {
            assert(h0.wf_up(t, q));
        }
        if x == a && a >= 0 { }
    }
    assert(h1.wf_t(t1));
    lemma_kids(h1, t1);
    lemma_kids(h0, t);
}
=== fn hierarchy NodeData::new
--- spec
ensures r.empty(), r == NodeData::dflt(),
--- hint end
assert(__ret.children =~= NodeData::dflt().children);
assert(__ret.siblings =~= NodeData::dflt().siblings);
=== fn hierarchy NodeData::default of=Default
--- spec
ensures r.empty(), r == NodeData::dflt(),
=== fn hierarchy Hierarchy::new
--- spec
ensures r.wf(), forall|i: int| #![trigger r.d(i)] r.d(i).empty(),
--- hint end
proof { lemma_new(__ret); }
=== fn hierarchy Hierarchy::with_capacity
--- spec
ensures r.wf(), forall|i: int| #![trigger r.d(i)] r.d(i).empty(),
--- hint end
proof { lemma_new(__ret); }
=== raw hier_new
pub proof fn lemma_new(h: Hierarchy)
    requires h.data.default.empty(), h.data.all_default(), h.data.data.len() == 0,
    ensures h.wf(), forall|i: int| #![trigger h.d(i)] h.d(i).empty(),
{
    let t = Tree { ch: |i: int| Seq::<int>::empty(), pos: |x: int| 0int, rk: |x: int| 0int };
    assert(h.wf_t(t));
}
=== fn hierarchy Hierarchy::get_mut
--- spec
requires node.wf(),
ensures
    *r == old(self).d(node.i()),
    final(self).data.upd(old(self).data, node.i(), *final(r)),
    final(self).data.data.len() == (if node.i() < old(self).data.data.len() { old(self).data.data.len() as int } else { node.i() + 1 }),
=== fn hierarchy Hierarchy::try_get_mut
--- spec
requires node.wf(),
ensures
    final(self).data.data.len() == old(self).data.data.len(),
    match r {
        Some(x) => *x == old(self).d(node.i()) && final(self).data.upd(old(self).data, node.i(), *final(x)),
        None => node.i() >= old(self).data.data.len() && final(self).data.same(old(self).data),
    },
=== fn hierarchy Hierarchy::get
--- spec
requires node.wf(),
ensures *r == self.d(node.i()),
=== fn hierarchy Hierarchy::parent P=H01
--- spec
requires self.wf(), node.wf(),
ensures match r { Some(p) => p.wf() && p.i() == self.par(node.i()), None => self.par(node.i()) == -1 },
--- hint start
let ghost t = self.tree();
assert(self.wf_up(t, node.i()));
=== fn hierarchy Hierarchy::is_root P=H01
--- spec
requires self.wf(), node.wf(),
ensures r == (self.par(node.i()) == -1),
=== raw hier_queries
pub open spec fn is_ix(r: Option<NodeIndex>, x: int) -> bool {
    match r { Some(p) => p.wf() && p.i() == x, None => x == -1 }
}
/// What the sibling pointers mean.
pub proof fn lemma_sib(h: Hierarchy, x: int)
    requires h.wf(), h.par(x) >= 0,
    ensures
        exists|k: int| 0 <= k < h.kids(h.par(x)).len() && #[trigger] h.kids(h.par(x))[k] == x,
        forall|k: int| 0 <= k < h.kids(h.par(x)).len() && #[trigger] h.kids(h.par(x))[k] == x ==>
            h.d(x).prv() == (if k > 0 { h.kids(h.par(x))[k - 1] } else { -1 })
            && h.d(x).nxt() == (if k + 1 < h.kids(h.par(x)).len() { h.kids(h.par(x))[k + 1] } else { -1 }),
{
    let t = h.tree();
    assert(h.wf_up(t, x));
    assert(h.kids(h.par(x))[(t.pos)(x)] == x);
    assert forall|k: int| 0 <= k < h.kids(h.par(x)).len() && #[trigger] h.kids(h.par(x))[k] == x implies
            h.d(x).prv() == (if k > 0 { h.kids(h.par(x))[k - 1] } else { -1 })
            && h.d(x).nxt() == (if k + 1 < h.kids(h.par(x)).len() { h.kids(h.par(x))[k + 1] } else { -1 }) by {
        assert(h.wf_at(t, h.par(x), k));
    }
}
=== fn hierarchy Hierarchy::first P=H01
--- spec
requires self.wf(), parent.wf(),
ensures
    is_ix(r, self.d(parent.i()).fst()),
    is_ix(r, if self.kids(parent.i()).len() > 0 { self.kids(parent.i())[0] } else { -1 }),
--- hint start
let ghost t = self.tree();
assert(self.wf_ch(t, parent.i()));
=== fn hierarchy Hierarchy::last P=H01
--- spec
requires self.wf(), parent.wf(),
ensures is_ix(r, if self.kids(parent.i()).len() > 0 { self.kids(parent.i()).last() } else { -1 }),
--- hint start
let ghost t = self.tree();
assert(self.wf_ch(t, parent.i()));
=== fn hierarchy Hierarchy::next P=H01
--- spec
requires self.wf(), node.wf(),
ensures
    is_ix(r, self.d(node.i()).nxt()),
   
    self.par(node.i()) == -1 ==> r.is_none(),
    forall|k: int| #![trigger self.kids(self.par(node.i()))[k]] self.par(node.i()) >= 0 && 0 <= k < self.kids(self.par(node.i())).len() && self.kids(self.par(node.i()))[k] == node.i() ==>
        is_ix(r, if k + 1 < self.kids(self.par(node.i())).len() { self.kids(self.par(node.i()))[k + 1] } else { -1 }),
--- hint start
let ghost t = self.tree();
assert(self.wf_up(t, node.i()));
proof { if self.par(node.i()) >= 0 { lemma_sib(*self, node.i()); } }
=== fn hierarchy Hierarchy::prev P=H01
--- spec
requires self.wf(), node.wf(),
ensures
    self.par(node.i()) == -1 ==> r.is_none(),
    forall|k: int| #![trigger self.kids(self.par(node.i()))[k]] self.par(node.i()) >= 0 && 0 <= k < self.kids(self.par(node.i())).len() && self.kids(self.par(node.i()))[k] == node.i() ==>
        is_ix(r, if k > 0 { self.kids(self.par(node.i()))[k - 1] } else { -1 }),
--- hint start
let ghost t = self.tree();
assert(self.wf_up(t, node.i()));
proof { if self.par(node.i()) >= 0 { lemma_sib(*self, node.i()); } }
=== fn hierarchy Hierarchy::child_count P=H01
--- spec
requires self.wf(), node.wf(),
ensures r == self.kids(node.i()).len(),
--- hint start
let ghost t = self.tree();
assert(self.wf_ch(t, node.i()));
=== fn hierarchy Hierarchy::has_children P=H01
--- spec
requires self.wf(), node.wf(),
ensures r == (self.kids(node.i()).len() > 0),
=== fn hierarchy Hierarchy::cycle_check P=H01
--- spec
requires self.wf(), node.wf(), parent.wf(),
ensures r == !self.under(parent.i(), node.i()),
--- hint start
let ghost t = self.tree();
let ghost p0 = parent.i();
proof {
    lemma_under(*self, parent.i(), node.i());
    assert(self.wf_ch(t, node.i()));
    if (t.ch)(node.i()).len() == 0 { lemma_no_kid(*self, t, parent.i(), node.i()); }
    else { assert(self.wf_at(t, node.i(), 0)) }
}
--- loop 0
invariant
    self.wf_t(t), node.wf(), parent.wf(), self.under(parent.i(), node.i()) == self.under(p0, node.i()),
decreases (t.rk)(parent.i()),
--- hint loop0.start
proof {
    lemma_under(*self, parent.i(), node.i());
    assert(self.wf_up(t, parent.i()));
    if self.par(parent.i()) >= 0 { assert(self.wf_up(t, self.par(parent.i()))) }
}
=== raw hier_attach
/// The outcome of attaching node n to parent p at position k.
pub open spec fn attached(h0: Hierarchy, h1: Hierarchy, r: Result<(), AttachError>, node: NodeIndex, parent: NodeIndex, k: int) -> bool {
    match r {
        Ok(_) => h0.par(node.i()) == -1 && !h0.under(parent.i(), node.i()) && ins_kids(h0, h1, parent.i(), node.i(), k),
        Err(AttachError::Cycle { node: a, parent: b }) => a == node && b == parent && h0.under(parent.i(), node.i()) && h0 == h1,
        Err(AttachError::AlreadyAttached { node: a }) => a == node && h0.par(node.i()) >= 0 && h0 == h1,
        _ => false,
    }
}
=== fn hierarchy Hierarchy::push_child P=H01
--- spec
requires old(self).wf(), node.wf(), parent.wf(),
ensures
    attached(*old(self), *final(self), r, node, parent, old(self).kids(parent.i()).len() as int),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
proof {
    lemma_kids(h0, t);
    lemma_few(t, h0, parent.i());
    assert(h0.wf_ch(t, parent.i()) && h0.wf_up(t, node.i()));
    assert((t.ch)(parent.i()).len() > 0 ==> h0.wf_at(t, parent.i(), (t.ch)(parent.i()).len() - 1));
    lemma_under(h0, parent.i(), node.i());
}
--- hint end
proof {
    if __ret.is_ok() {
        let s = (t.ch)(parent.i());
        let a = if s.len() > 0 { s.last() } else { -1 };
        assert(ins(h0, *self, parent.i(), node.i(), a, -1));
        lemma_ins(h0, *self, t, parent.i(), node.i(), s.len() as int, a, -1);
    }
}
=== fn hierarchy Hierarchy::push_front_child P=H01
--- spec
requires old(self).wf(), node.wf(), parent.wf(),
ensures attached(*old(self), *final(self), r, node, parent, 0),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
proof {
    lemma_kids(h0, t);
    lemma_few(t, h0, parent.i());
    assert(h0.wf_ch(t, parent.i()) && h0.wf_up(t, node.i()));
    assert((t.ch)(parent.i()).len() > 0 ==> h0.wf_at(t, parent.i(), 0));
    lemma_under(h0, parent.i(), node.i());
}
--- hint end
proof {
    if __ret.is_ok() {
        let s = (t.ch)(parent.i());
        let b = if s.len() > 0 { s[0] } else { -1 };
        assert(ins(h0, *self, parent.i(), node.i(), -1, b));
        lemma_ins(h0, *self, t, parent.i(), node.i(), 0, -1, b);
    }
}
=== raw hier_sibling
/// The outcome of attaching node n next to the child s.
pub open spec fn attached_to(h0: Hierarchy, h1: Hierarchy, r: Result<(), AttachError>, node: NodeIndex, sib: NodeIndex, after: int) -> bool {
    let p = h0.par(sib.i());
    match r {
        Ok(_) => h0.par(node.i()) == -1 && p >= 0 && !h0.under(p, node.i())
            && exists|k: int| 0 <= k < h0.kids(p).len() && h0.kids(p)[k] == sib.i() && #[trigger] ins_kids(h0, h1, p, node.i(), k + after),
        Err(AttachError::AlreadyAttached { node: a }) => a == node && h0.par(node.i()) >= 0 && h0 == h1,
        Err(AttachError::RootSibling { root: a }) => a == sib && p == -1 && h0 == h1,
        Err(AttachError::Cycle { node: a, parent: b }) => a == node && b.wf() && b.i() == p && h0.under(p, node.i()) && h0 == h1,
    }
}
=== fn hierarchy Hierarchy::insert_before P=H01
--- spec
requires old(self).wf(), node.wf(), before.wf(),
ensures attached_to(*old(self), *final(self), r, node, before, 0),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
let ghost p = self.par(before.i());
let ghost k0 = (t.pos)(before.i());
proof {
    lemma_kids(h0, t);
    lemma_few(t, h0, p);
    assert(h0.wf_up(t, before.i()) && h0.wf_up(t, node.i()) && h0.wf_up(t, p) && h0.wf_ch(t, p));
    if p >= 0 {
        assert(h0.wf_at(t, p, k0));
        assert(k0 > 0 ==> h0.wf_at(t, p, k0 - 1));
        assert(k0 + 1 < (t.ch)(p).len() ==> h0.wf_at(t, p, k0 + 1));
        lemma_under(h0, p, node.i());
    }
}
--- hint end
proof {
    if __ret.is_ok() {
        let s = (t.ch)(p);
        let k = k0 + 0;
        let a = if k > 0 { s[k - 1] } else { -1 };
        let b = if k < s.len() { s[k] } else { -1 };
        assert(ins(h0, *self, p, node.i(), a, b));
        lemma_ins(h0, *self, t, p, node.i(), k, a, b);
        assert(h0.kids(p)[k0] == before.i());
        assert(ins_kids(h0, *self, p, node.i(), k0 + 0));
    }
}
=== fn hierarchy Hierarchy::insert_after P=H01
--- spec
requires old(self).wf(), node.wf(), after.wf(),
ensures attached_to(*old(self), *final(self), r, node, after, 1),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
let ghost p = self.par(after.i());
let ghost k0 = (t.pos)(after.i());
proof {
    lemma_kids(h0, t);
    lemma_few(t, h0, p);
    assert(h0.wf_up(t, after.i()) && h0.wf_up(t, node.i()) && h0.wf_up(t, p) && h0.wf_ch(t, p));
    if p >= 0 {
        assert(h0.wf_at(t, p, k0));
        assert(k0 > 0 ==> h0.wf_at(t, p, k0 - 1));
        assert(k0 + 1 < (t.ch)(p).len() ==> h0.wf_at(t, p, k0 + 1));
        lemma_under(h0, p, node.i());
    }
}
--- hint end
proof {
    if __ret.is_ok() {
        let s = (t.ch)(p);
        let k = k0 + 1;
        let a = if k > 0 { s[k - 1] } else { -1 };
        let b = if k < s.len() { s[k] } else { -1 };
        assert(ins(h0, *self, p, node.i(), a, b));
        lemma_ins(h0, *self, t, p, node.i(), k, a, b);
        assert(h0.kids(p)[k0] == after.i());
        assert(ins_kids(h0, *self, p, node.i(), k0 + 1));
    }
}
=== raw hier_detach
/// n was detached from p, where it was between a and b.
pub open spec fn rem(h0: Hierarchy, h1: Hierarchy, p: int, n: int, a: int, b: int) -> bool {
    &&& h1.wf_c()
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] {
        &&& h1.d(x).par() == (if x == n { -1 } else { h0.d(x).par() })
        &&& h1.d(x).cnt() == (if x == p { h0.d(x).cnt() - 1 } else { h0.d(x).cnt() })
        &&& h1.d(x).fst() == (if x == p && a < 0 { b } else { h0.d(x).fst() })
        &&& h1.d(x).lst() == (if x == p && b < 0 { a } else { h0.d(x).lst() })
        &&& h1.d(x).prv() == (if x == n { -1 } else if x == b && b >= 0 { a } else { h0.d(x).prv() })
        &&& h1.d(x).nxt() == (if x == n { -1 } else if x == a && a >= 0 { b } else { h0.d(x).nxt() })
    }
}
/// The forest without the link from n to its parent.
pub open spec fn rem_kids(h0: Hierarchy, h1: Hierarchy, n: int) -> bool {
    let p = h0.par(n);
    &&& h1.wf()
    &&& forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == (if i == p && p >= 0 { without(h0.kids(p), n) } else { h0.kids(i) })
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.par(x) == (if x == n { -1 } else { h0.par(x) })
}
/// s without its element n
pub open spec fn without(s: Seq<int>, n: int) -> Seq<int> { s.remove(s.index_of(n)) }
pub open spec fn t_rem(h0: Hierarchy, t: Tree, p: int, n: int, k: int) -> Tree {
    Tree {
        ch: |i: int| if i == p { (t.ch)(p).remove(k) } else { (t.ch)(i) },
        pos: |x: int| if h0.par(x) == p && (t.pos)(x) > k { (t.pos)(x) - 1 } else { (t.pos)(x) },
        rk: t.rk,
    }
}
pub proof fn lemma_rem(h0: Hierarchy, h1: Hierarchy, t: Tree, p: int, n: int, k: int, a: int, b: int)
    requires
        h0.wf_t(t), rem(h0, h1, p, n, a, b), isn(n), h0.par(n) == p, p >= 0, k == (t.pos)(n),
        a == (if k > 0 { (t.ch)(p)[k - 1] } else { -1 }),
        b == (if k + 1 < (t.ch)(p).len() { (t.ch)(p)[k + 1] } else { -1 }),
    ensures rem_kids(h0, h1, n),
{
    let t1 = t_rem(h0, t, p, n, k);
    let s = (t.ch)(p);
    let s1 = s.remove(k);
    assert(h0.wf_ch(t, p) && h0.wf_up(t, p) && h0.wf_up(t, n));
    assert(h0.wf_at(t, p, k));
    if k > 0 { assert(h0.wf_at(t, p, k - 1)); }
    if k + 1 < s.len() { assert(h0.wf_at(t, p, k + 1)); }
    assert(s1.len() == s.len() - 1);
    assert(forall|q: int| 0 <= q < s1.len() ==> s1[q] == (if q < k { s[q] } else { s[q + 1] }));
    assert forall|i: int| #[trigger] h1.wf_ch(t1, i) by { assert(h0.wf_ch(t, i)); }
    assert forall|i: int, j: int| #![trigger h1.wf_at(t1, i, j)] 0 <= j < (t1.ch)(i).len() implies h1.wf_at(t1, i, j) by {
        let c = (t1.ch)(i)[j];
        let z = h1.d(c);
        if i == p {
            let jo = if j < k { j } else { j + 1 };
            assert(h0.wf_at(t, p, jo));
            assert(s[jo] == c);
            if jo > 0 { assert(h0.wf_at(t, p, jo - 1)); }
            if jo + 1 < s.len() { assert(h0.wf_at(t, p, jo + 1)); }
            assert(c != n);
            assert(c == a <==> jo == k - 1);
            assert(c == b <==> jo == k + 1);
            assert(isn(c));
            assert(h1.d(c).par() == i);
            assert(h1.d(c).prv() == (if j > 0 { s1[j - 1] } else { -1 }));
            assert(h1.d(c).nxt() == (if j + 1 < s1.len() { s1[j + 1] } else { -1 }));
            assert((t1.pos)(c) == j);
        } else {
            assert(h0.wf_at(t, i, j) && h0.wf_ch(t, i));
            assert(h1.wf_at(t1, i, j));
        }
    }
    assert forall|x: int| #[trigger] h1.wf_up(t1, x) by {
        assert(h0.wf_up(t, x));
        let q = h0.par(x);
        let z = h1.d(x);
        if q == p && x != n {
            assert((t.pos)(x) != k);
        }
    }
    assert(h1.wf_t(t1));
    lemma_kids(h1, t1);
    lemma_kids(h0, t);
    assert(s.index_of(n) == k) by {
        let m = s.index_of(n);
        assert(s[k] == n);
        assert(s.contains(n));
        assert(h0.wf_at(t, p, m));
    }
}
/// Nothing that can be observed changed.
pub proof fn lemma_same(h0: Hierarchy, h1: Hierarchy)
    requires h0.wf(), h1.same(h0), h1.wf_c(),
    ensures h1.wf(), forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == h0.kids(i),
{
    let t = h0.tree();
    assert forall|i: int| #[trigger] h1.wf_ch(t, i) by { assert(h0.wf_ch(t, i)); let z = h1.d(i); }
    assert forall|i: int, k: int| #![trigger h1.wf_at(t, i, k)] 0 <= k < (t.ch)(i).len() implies h1.wf_at(t, i, k) by { assert(h0.wf_at(t, i, k)); let z = h1.d((t.ch)(i)[k]); }
    assert forall|i: int| #[trigger] h1.wf_up(t, i) by { assert(h0.wf_up(t, i)); let z = h1.d(i); }
    assert(h1.wf_t(t));
    lemma_kids(h1, t);
    lemma_kids(h0, t);
}
pub proof fn lemma_same_all(h0: Hierarchy)
    requires h0.wf(),
    ensures
        forall|h1: Hierarchy| #[trigger] h1.data.same(h0.data) && h1.data.data.len() == h0.data.data.len() ==> h1.wf()
            && (forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == h0.kids(i)),
{
    assert forall|h1: Hierarchy| #[trigger] h1.data.same(h0.data) && h1.data.data.len() == h0.data.data.len() implies h1.wf()
            && (forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == h0.kids(i)) by {
        lemma_same(h0, h1);
    }
}
=== fn hierarchy Hierarchy::detach P=H02
--- spec
requires old(self).wf(), node.wf(),
ensures
    is_ix(r, old(self).par(node.i())),
    rem_kids(*old(self), *final(self), node.i()),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
let ghost n = node.i();
let ghost p = self.par(n);
let ghost k0 = (t.pos)(n);
proof {
    lemma_kids(h0, t);
    assert(h0.wf_up(t, n) && h0.wf_up(t, p) && h0.wf_ch(t, p));
    if p >= 0 {
        assert(h0.wf_at(t, p, k0));
        assert(k0 > 0 ==> h0.wf_at(t, p, k0 - 1));
        assert(k0 + 1 < (t.ch)(p).len() ==> h0.wf_at(t, p, k0 + 1));
    }
    lemma_same_all(h0);
}
--- hint end
proof {
    let s = (t.ch)(p);
    let a = if k0 > 0 { s[k0 - 1] } else { -1 };
    let b = if k0 + 1 < s.len() { s[k0 + 1] } else { -1 };
    if p >= 0 {
        assert(rem(h0, *self, p, n, a, b));
        lemma_rem(h0, *self, t, p, n, k0, a, b);
    } else {
        lemma_same(h0, *self);
    }
}
=== raw hier_detach_children
/// n lost all its children.
pub open spec fn orphaned(h0: Hierarchy, h1: Hierarchy, n: int) -> bool {
    &&& h1.wf()
    &&& forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == (if i == n { Seq::empty() } else { h0.kids(i) })
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.par(x) == (if h0.par(x) == n { -1 } else { h0.par(x) })
}
/// The first j children of n were detached.
pub open spec fn h_unlinked(h0: Hierarchy, h1: Hierarchy, t: Tree, n: int, j: int) -> bool {
    &&& h1.wf_c()
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] {
        let g = h0.d(x).par() == n && (t.pos)(x) < j;
        &&& h1.d(x).par() == (if g { -1 } else { h0.d(x).par() })
        &&& h1.d(x).cnt() == (if x == n { 0 } else { h0.d(x).cnt() })
        &&& h1.d(x).fst() == (if x == n { -1 } else { h0.d(x).fst() })
        &&& h1.d(x).lst() == (if x == n { -1 } else { h0.d(x).lst() })
        &&& h1.d(x).prv() == (if g { -1 } else { h0.d(x).prv() })
        &&& h1.d(x).nxt() == (if g { -1 } else { h0.d(x).nxt() })
    }
}
pub proof fn lemma_orphaned(h0: Hierarchy, h1: Hierarchy, t: Tree, n: int)
    requires h0.wf_t(t), isn(n), h_unlinked(h0, h1, t, n, (t.ch)(n).len() as int),
    ensures orphaned(h0, h1, n),
{
    let t1 = Tree { ch: |i: int| if i == n { Seq::<int>::empty() } else { (t.ch)(i) }, pos: t.pos, rk: t.rk };
    assert forall|i: int| #[trigger] h1.wf_ch(t1, i) by { assert(h0.wf_ch(t, i)); let z = h1.d(i); }
    assert forall|i: int, j: int| #![trigger h1.wf_at(t1, i, j)] 0 <= j < (t1.ch)(i).len() implies h1.wf_at(t1, i, j) by {
        assert(h0.wf_at(t, i, j));
        let z = h1.d((t.ch)(i)[j]);
    }
    assert forall|x: int| #[trigger] h1.wf_up(t1, x) by { assert(h0.wf_up(t, x)); let z = h1.d(x); }
    assert(h1.wf_t(t1));
    lemma_kids(h1, t1);
    lemma_kids(h0, t);
    assert forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.par(x) == (if h0.par(x) == n { -1 } else { h0.par(x) }) by { assert(h0.wf_up(t, x)); }
}
=== fn hierarchy Hierarchy::detach_children P=H02
--- spec
requires old(self).wf(), node.wf(),
ensures orphaned(*old(self), *final(self), node.i()),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
let ghost n = node.i();
let ghost s = (t.ch)(n);
let ghost mut j: int = 0;
proof {
    lemma_kids(h0, t);
    assert(h0.wf_ch(t, n));
    assert forall|h1: Hierarchy| #[trigger] h1.data.same(h0.data) && h1.data.data.len() == h0.data.data.len() && n >= h0.data.data.len() implies orphaned(h0, h1, n) by {
        assert(h_unlinked(h0, h1, t, n, 0)) by {
            assert forall|x: int| #![trigger h0.d(x)] h0.d(x).par() == n implies (t.pos)(x) >= 0 by { assert(h0.wf_up(t, x)); }
        }
        lemma_orphaned(h0, h1, t, n);
    }
    assert forall|x: int| #![trigger h0.d(x)] h0.d(x).par() == n implies 0 <= (t.pos)(x) < s.len() by { assert(h0.wf_up(t, x)); }
}
--- loop 0
invariant
    h0.wf_t(t), isn(n), s == (t.ch)(n), 0 <= j <= s.len(),
    child_next.wf(), ix(child_next) == (if j < s.len() { s[j] } else { -1 }),
    h_unlinked(h0, *self, t, n, j),
decreases s.len() - j,
--- hint loop0.start
proof { if j < s.len() { assert(h0.wf_at(t, n, j)); } }
let ghost hj = *self;
--- hint loop0.end
proof {
    assert forall|x: int| #![trigger h0.d(x)] h0.d(x).par() == n && (t.pos)(x) == j implies x == s[j] by { assert(h0.wf_up(t, x)); }
    j = j + 1;
    if j < s.len() { assert(h0.wf_at(t, n, j)); }
}
--- hint end
proof { lemma_orphaned(h0, *self, t, n); }
=== fn hierarchy Hierarchy::remove P=H02
--- spec
requires old(self).wf(), node.wf(),
ensures h_removed(*old(self), *final(self), node.i()),
--- hint start
let ghost h0 = *self;
--- hint end
proof {
    let n = node.i();
    let t = h0.tree();
    assert(h0.wf_up(t, n));
    if h0.par(n) >= 0 { assert(h0.wf_at(t, h0.par(n), (t.pos)(n)) && h0.wf_up(t, h0.par(n))); }
}
=== raw hier_removed
/// n lost its parent and its children.
pub open spec fn h_removed(h0: Hierarchy, h1: Hierarchy, n: int) -> bool {
    let p = h0.par(n);
    &&& h1.wf()
    &&& forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == (if i == n { Seq::empty() } else if i == p && p >= 0 { without(h0.kids(p), n) } else { h0.kids(i) })
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.par(x) == (if x == n || h0.par(x) == n { -1 } else { h0.par(x) })
}
=== raw hier_rekey
/// The children list starting at `start`, as linked by the sibling pointers.
pub open spec fn chain_at(h: Hierarchy, c: Seq<int>, k: int) -> bool {
    isn(c[k]) && h.d(c[k]).nxt() == (if k + 1 < c.len() { c[k + 1] } else { -1 })
}
pub open spec fn is_chain(h: Hierarchy, start: int, c: Seq<int>) -> bool {
    &&& start == (if c.len() > 0 { c[0] } else { -1 })
    &&& forall|k: int| #![trigger chain_at(h, c, k)] 0 <= k < c.len() ==> chain_at(h, c, k)
}
pub proof fn lemma_chain_eq(h: Hierarchy, start: int, c: Seq<int>, e: Seq<int>)
    requires is_chain(h, start, c), is_chain(h, start, e),
    ensures c == e,
{
    lemma_chain_k(h, start, c, e, c.len() as int);
    lemma_chain_k(h, start, e, c, e.len() as int);
    assert(c =~= e);
}
pub proof fn lemma_chain_k(h: Hierarchy, start: int, c: Seq<int>, e: Seq<int>, n: int)
    requires is_chain(h, start, c), is_chain(h, start, e), 0 <= n <= c.len(),
    ensures n <= e.len(), forall|k: int| 0 <= k < n ==> c[k] == e[k],
    decreases n,
{
    if n > 0 {
        lemma_chain_k(h, start, c, e, n - 1);
        assert(chain_at(h, c, n - 1));
        if n > 1 { assert(chain_at(h, c, n - 2) && chain_at(h, e, n - 2)); }
    }
}
/// The parent of every node in c became v.
pub open spec fn set_par(h0: Hierarchy, h1: Hierarchy, c: Seq<int>, v: int) -> bool {
    forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] {
        &&& h1.d(x).par() == (if c.contains(x) { v } else { h0.d(x).par() })
        &&& h1.d(x).cnt() == h0.d(x).cnt() && h1.d(x).fst() == h0.d(x).fst() && h1.d(x).lst() == h0.d(x).lst()
        &&& h1.d(x).prv() == h0.d(x).prv() && h1.d(x).nxt() == h0.d(x).nxt()
    }
}
=== fn hierarchy Hierarchy::rekey_in_children
--- spec
requires
    old(self).wf_c(), data.wf(), new.wf(),
    exists|c: Seq<int>| is_chain(*old(self), data.fst(), c),
ensures
    final(self).wf_c(),
    forall|c: Seq<int>| #[trigger] is_chain(*old(self), data.fst(), c) ==> set_par(*old(self), *final(self), c, new.i()),
--- hint start
let ghost h0 = *self;
let ghost s = choose|c: Seq<int>| is_chain(h0, data.fst(), c);
let ghost mut j: int = 0;
--- loop 0
invariant
    h0.wf_c(), self.wf_c(), data.wf(), new.wf(), is_chain(h0, data.fst(), s), 0 <= j <= s.len(),
    next_child.wf(), ix(next_child) == (if j < s.len() { s[j] } else { -1 }),
    set_par(h0, *self, s.take(j), new.i()),
decreases s.len() - j,
--- hint loop0.start
proof { if j < s.len() { assert(chain_at(h0, s, j)); } }
--- hint loop0.end
proof {
    let c0 = s.take(j);
    let c1 = s.take(j + 1);
    assert forall|x: int| #[trigger] c1.contains(x) == (c0.contains(x) || x == s[j]) by {
        if c0.contains(x) { let k = c0.index_of(x); assert(c1[k] == x); }
        if x == s[j] { assert(c1[j] == x); }
        if c1.contains(x) { let k = c1.index_of(x); if k < j { assert(c0[k] == x); } }
    }
    j = j + 1;
    if j < s.len() { assert(chain_at(h0, s, j)); }
}
--- hint end
proof {
    assert(s.take(j) =~= s);
    assert forall|c: Seq<int>| #[trigger] is_chain(h0, data.fst(), c) implies set_par(h0, *self, c, new.i()) by { lemma_chain_eq(h0, data.fst(), c, s); }
}
=== fn hierarchy Hierarchy::rekey_in_parent
--- spec
requires old(self).wf_c(), data.wf(), new_node.wf(),
ensures final(self).wf_c(), set_ends(*old(self), *final(self), data, new_node.i()),
=== fn hierarchy Hierarchy::rekey_in_siblings
--- spec
requires old(self).wf_c(), data.wf(), new.wf(),
ensures final(self).wf_c(), set_sibs(*old(self), *final(self), data, new.i()),
=== raw hier_rename
pub open spec fn set_ends(h0: Hierarchy, h1: Hierarchy, data: NodeData, v: int) -> bool {
    forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] {
        &&& h1.d(x).fst() == (if x == data.par() && x >= 0 && data.prv() == -1 { v } else { h0.d(x).fst() })
        &&& h1.d(x).lst() == (if x == data.par() && x >= 0 && data.nxt() == -1 { v } else { h0.d(x).lst() })
        &&& h1.d(x).par() == h0.d(x).par() && h1.d(x).cnt() == h0.d(x).cnt()
        &&& h1.d(x).prv() == h0.d(x).prv() && h1.d(x).nxt() == h0.d(x).nxt()
    }
}
pub open spec fn set_sibs(h0: Hierarchy, h1: Hierarchy, data: NodeData, v: int) -> bool {
    forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] {
        &&& h1.d(x).nxt() == (if x == data.prv() && x >= 0 { v } else { h0.d(x).nxt() })
        &&& h1.d(x).prv() == (if x == data.nxt() && x >= 0 { v } else { h0.d(x).prv() })
        &&& h1.d(x).par() == h0.d(x).par() && h1.d(x).cnt() == h0.d(x).cnt()
        &&& h1.d(x).fst() == h0.d(x).fst() && h1.d(x).lst() == h0.d(x).lst()
    }
}
/// The transposition of a and b.
pub open spec fn hsw(a: int, b: int, x: int) -> int { if x == a { b } else if x == b { a } else { x } }
pub open spec fn sws(a: int, b: int, s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |k: int| hsw(a, b, s[k])) }
/// Same forest, with the names a and b exchanged.
pub open spec fn renamed(h0: Hierarchy, h1: Hierarchy, a: int, b: int) -> bool {
    &&& h1.wf()
    &&& forall|x: int| #![trigger h1.kids(x)] h1.kids(x) == sws(a, b, h0.kids(hsw(a, b, x)))
    &&& forall|x: int| #![trigger h1.d(x)] h1.par(x) == hsw(a, b, h0.par(hsw(a, b, x)))
}
pub open spec fn ren_at(h0: Hierarchy, h1: Hierarchy, a: int, b: int, x: int) -> bool {
    let y = hsw(a, b, x);
    &&& h1.d(x).par() == hsw(a, b, h0.d(y).par())
    &&& h1.d(x).cnt() == h0.d(y).cnt()
    &&& h1.d(x).fst() == hsw(a, b, h0.d(y).fst())
    &&& h1.d(x).lst() == hsw(a, b, h0.d(y).lst())
    &&& h1.d(x).prv() == hsw(a, b, h0.d(y).prv())
    &&& h1.d(x).nxt() == hsw(a, b, h0.d(y).nxt())
}
pub proof fn lemma_ren(h0: Hierarchy, h1: Hierarchy, t: Tree, a: int, b: int)
    requires h0.wf_t(t), h1.wf_c(), isn(a), isn(b), forall|x: int| #[trigger] ren_at(h0, h1, a, b, x),
    ensures renamed(h0, h1, a, b),
{
    let t1 = Tree { ch: |i: int| sws(a, b, (t.ch)(hsw(a, b, i))), pos: |x: int| (t.pos)(hsw(a, b, x)), rk: |x: int| (t.rk)(hsw(a, b, x)) };
    assert forall|i: int| #[trigger] h1.wf_ch(t1, i) by { assert(h0.wf_ch(t, hsw(a, b, i))); assert(ren_at(h0, h1, a, b, i)); }
    assert forall|i: int, j: int| #![trigger h1.wf_at(t1, i, j)] 0 <= j < (t1.ch)(i).len() implies h1.wf_at(t1, i, j) by {
        let c = (t1.ch)(i)[j];
        assert(h0.wf_at(t, hsw(a, b, i), j) && h0.wf_ch(t, hsw(a, b, i)));
        assert(ren_at(h0, h1, a, b, c));
    }
    assert forall|x: int| #[trigger] h1.wf_up(t1, x) by { assert(h0.wf_up(t, hsw(a, b, x))); assert(ren_at(h0, h1, a, b, x)); }
    assert(h1.wf_t(t1));
    lemma_kids(h1, t1);
    lemma_kids(h0, t);
    assert forall|x: int| #![trigger h1.d(x)] h1.par(x) == hsw(a, b, h0.par(hsw(a, b, x))) by { assert(ren_at(h0, h1, a, b, x)); }
}
pub open spec fn refs(h: Hierarchy, t: Tree, x: int) -> bool {
    let d = h.d(x);
    &&& d.wf() && d.fst() <= top() && d.lst() <= top() && d.prv() <= top() && d.nxt() <= top() && d.par() <= top()
    &&& d.fst() >= 0 ==> h.d(d.fst()).par() == x && h.d(d.fst()).prv() == -1
    &&& d.lst() >= 0 ==> h.d(d.lst()).par() == x && h.d(d.lst()).nxt() == -1
    &&& (d.fst() >= 0) == (d.lst() >= 0) && (d.fst() >= 0) == (d.cnt() > 0)
    &&& d.nxt() >= 0 ==> h.d(d.nxt()).par() == d.par() && h.d(d.nxt()).prv() == x && d.nxt() != x
    &&& d.prv() >= 0 ==> h.d(d.prv()).par() == d.par() && h.d(d.prv()).nxt() == x && d.prv() != x
    &&& d.par() >= 0 ==> isn(x) && (t.ch)(d.par()).contains(x) && d.par() != x && h.d(d.par()).cnt() > 0
        && (d.prv() == -1) == (h.d(d.par()).fst() == x) && (d.nxt() == -1) == (h.d(d.par()).lst() == x)
    &&& d.par() < 0 ==> d.par() == -1 && d.nxt() == -1 && d.prv() == -1
    &&& (x < 0 || x > top()) ==> d.empty()
    &&& forall|p: int| #[trigger] (t.ch)(p).contains(x) ==> d.par() == p
}
pub proof fn lemma_refs(h: Hierarchy, t: Tree)
    requires h.wf_t(t),
    ensures forall|x: int| #[trigger] refs(h, t, x),
{
    assert forall|x: int| #[trigger] refs(h, t, x) by {
        let d = h.d(x);
        let p = d.par();
        assert(h.wf_ch(t, x) && h.wf_up(t, x) && d.wf());
        if (t.ch)(x).len() > 0 { assert(h.wf_at(t, x, 0) && h.wf_at(t, x, (t.ch)(x).len() - 1)); }
        if p >= 0 {
            let s = (t.ch)(p);
            let k = (t.pos)(x);
            assert(h.wf_ch(t, p) && h.wf_at(t, p, k) && s[k] == x);
            if k > 0 { assert(h.wf_at(t, p, k - 1) && h.wf_at(t, p, 0)); }
            if k + 1 < s.len() { assert(h.wf_at(t, p, k + 1) && h.wf_at(t, p, s.len() - 1)); }
        }
        assert forall|p: int| #[trigger] (t.ch)(p).contains(x) implies d.par() == p by {
            let k = (t.ch)(p).index_of(x);
            assert(h.wf_at(t, p, k));
        }
    }
}
pub proof fn lemma_tree_chain(h: Hierarchy, t: Tree, h1: Hierarchy, i: int)
    requires h.wf_t(t), forall|x: int| #![trigger h1.d(x)] h.d(x).par() == i ==> h1.d(x).nxt() == h.d(x).nxt(),
    ensures is_chain(h1, h.d(i).fst(), (t.ch)(i)),
{
    let c = (t.ch)(i);
    assert(h.wf_ch(t, i));
    assert forall|k: int| #![trigger chain_at(h1, c, k)] 0 <= k < c.len() implies chain_at(h1, c, k) by { assert(h.wf_at(t, i, k)); let z = h1.d(c[k]); }
}
