=== default P=H01,H02
=== raw hier_rekey_steps
/// Only the data of node o was replaced.
pub open spec fn set_data(h0: Hierarchy, h1: Hierarchy, o: int, v: NodeData) -> bool {
    forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.d(x) == (if x == o { v } else { h0.d(x) })
}
pub proof fn lemma_rekey(h0: Hierarchy, t: Tree, h1: Hierarchy, h2: Hierarchy, h3: Hierarchy, h4: Hierarchy, h5: Hierarchy, o: int, n: int)
    requires
        h0.wf_t(t), h5.wf_c(), isn(o), isn(n), o != n, h0.d(n).empty(),
        set_data(h0, h1, o, NodeData::dflt()), set_par(h1, h2, (t.ch)(o), n), set_ends(h2, h3, h0.d(o), n), set_sibs(h3, h4, h0.d(o), n), set_data(h4, h5, n, h0.d(o)),
    ensures renamed(h0, h5, o, n),
{
    lemma_refs(h0, t);
    assert(refs(h0, t, o) && refs(h0, t, n));
    assert forall|x: int| #[trigger] ren_at(h0, h5, o, n, x) by {
        let y = hsw(o, n, x);
        assert(refs(h0, t, x) && refs(h0, t, y));
        let z = h5.d(x);
        let z = h4.d(x);
        let d = h0.d(y);
        assert(refs(h0, t, d.par()) && refs(h0, t, d.fst()) && refs(h0, t, d.lst()) && refs(h0, t, d.nxt()) && refs(h0, t, d.prv()));
        assert(d.par() != n && d.fst() != n && d.lst() != n && d.nxt() != n && d.prv() != n);
        if y != o && y != n {
            assert((t.ch)(o).contains(x) <==> d.par() == o);
        }
    }
    lemma_ren(h0, h5, t, o, n);
}
=== fn hierarchy Hierarchy::rekey P=H02 panics rename:old=old_n
--- spec
requires old(self).wf(), old_n.wf(), new.wf(),
ensures
    old_n.i() == new.i() ==> *final(self) == *old(self),
    old_n.i() != new.i() ==> old(self).d(new.i()).empty() && renamed(*old(self), *final(self), old_n.i(), new.i()),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
let ghost o = old_n.i();
let ghost n = new.i();
proof {
    assert(h0.wf_t(t));
    lemma_refs(h0, t);
    assert(refs(h0, t, o) && refs(h0, t, n));
}
--- hint before rekey_in_children#0
proof { lemma_tree_chain(h0, t, *self, o); }
let ghost h1 = *self;
--- hint after rekey_in_children#0
let ghost h2 = *self;
proof { assert(is_chain(h1, node_data.fst(), (t.ch)(o))); }
--- hint after rekey_in_parent#0
let ghost h3 = *self;
--- hint after rekey_in_siblings#0
let ghost h4 = *self;
--- hint after set#0
proof { lemma_rekey(h0, t, h1, h2, h3, h4, *self, o, n); }
=== fn hierarchy Hierarchy::swap_nodes closure=rekey_in_value as=swap__rekey_in_value
--- sig
fn swap__rekey_in_value(a0: Option<&mut NodeIndex>, a1: NodeIndex, a2: NodeIndex)
--- spec
ensures match a0 { Some(x) => *final(x) == (if *x == a1 { a2 } else { *x }), None => true },
=== fn hierarchy Hierarchy::swap_nodes closure=rekey_in_data as=swap__rekey_in_data lift=rekey_in_value:Hierarchy/swap__rekey_in_value:
--- sig
fn swap__rekey_in_data(a0: &mut NodeData, a1: NodeIndex, a2: NodeIndex)
--- spec
requires old(a0).wf(), a1.wf(), a2.wf(),
ensures data_ren(*old(a0), *final(a0), a1.i(), a2.i()), final(a0).wf(),
=== raw hier_swap_steps
pub open spec fn to(a: int, b: int, x: int) -> int { if x == a { b } else { x } }
pub open spec fn data_ren(d0: NodeData, d1: NodeData, a: int, b: int) -> bool {
    &&& d1.fst() == to(a, b, d0.fst()) && d1.lst() == to(a, b, d0.lst()) && d1.prv() == to(a, b, d0.prv()) && d1.nxt() == to(a, b, d0.nxt())
    &&& d1.par() == to(a, b, d0.par()) && d1.cnt() == d0.cnt()
}
pub proof fn lemma_swap_par(h0: Hierarchy, t: Tree, h1: Hierarchy, h2: Hierarchy, a: int, b: int, x: int)
    requires
        refs(h0, t, x), refs(h0, t, h0.d(x).par()), isn(a), isn(b), a != b, x != a, x != b,
        set_par(h0, h1, (t.ch)(a), b), set_par(h1, h2, (t.ch)(b), a),
    ensures h2.d(x).par() == hsw(a, b, h0.d(x).par()),
{
    let d = h0.d(x); let d1 = h1.d(x); let d2 = h2.d(x);
    assert((t.ch)(a).contains(x) <==> d.par() == a);
    assert((t.ch)(b).contains(x) <==> d.par() == b);
}
pub proof fn lemma_swap_ends(h0: Hierarchy, t: Tree, h2: Hierarchy, h3: Hierarchy, h4: Hierarchy, a: int, b: int, x: int)
    requires
        refs(h0, t, x), refs(h0, t, a), refs(h0, t, b), isn(a), isn(b), a != b, x != a, x != b,
        h2.d(x).fst() == h0.d(x).fst(), h2.d(x).lst() == h0.d(x).lst(),
        set_ends(h2, h3, h0.d(a), b), set_ends(h3, h4, h0.d(b), a),
    ensures h4.d(x).fst() == hsw(a, b, h0.d(x).fst()), h4.d(x).lst() == hsw(a, b, h0.d(x).lst()),
{
    let d = h0.d(x); let d3 = h3.d(x); let d4 = h4.d(x);
}
pub proof fn lemma_swap_sibs(h0: Hierarchy, t: Tree, h4: Hierarchy, h5: Hierarchy, h6: Hierarchy, a: int, b: int, x: int)
    requires
        refs(h0, t, x), refs(h0, t, a), refs(h0, t, b), isn(a), isn(b), a != b, x != a, x != b,
        h4.d(x).prv() == h0.d(x).prv(), h4.d(x).nxt() == h0.d(x).nxt(),
        set_sibs(h4, h5, h0.d(a), b), set_sibs(h5, h6, h0.d(b), a),
    ensures h6.d(x).prv() == hsw(a, b, h0.d(x).prv()), h6.d(x).nxt() == hsw(a, b, h0.d(x).nxt()),
{
    let d = h0.d(x); let d5 = h5.d(x); let d6 = h6.d(x);
}
pub proof fn lemma_swap_frame(h0: Hierarchy, t: Tree, h1: Hierarchy, h2: Hierarchy, h3: Hierarchy, h4: Hierarchy, h5: Hierarchy, h6: Hierarchy, a: int, b: int, x: int)
    requires
        set_par(h0, h1, (t.ch)(a), b), set_par(h1, h2, (t.ch)(b), a),
        set_ends(h2, h3, h0.d(a), b), set_ends(h3, h4, h0.d(b), a),
        set_sibs(h4, h5, h0.d(a), b), set_sibs(h5, h6, h0.d(b), a),
    ensures
        h2.d(x).fst() == h0.d(x).fst(), h2.d(x).lst() == h0.d(x).lst(),
        h4.d(x).prv() == h0.d(x).prv(), h4.d(x).nxt() == h0.d(x).nxt(),
        h6.d(x).cnt() == h0.d(x).cnt(), h6.d(x).par() == h2.d(x).par(), h6.d(x).fst() == h4.d(x).fst(), h6.d(x).lst() == h4.d(x).lst(),
{
    let d1 = h1.d(x); let d2 = h2.d(x); let d3 = h3.d(x); let d4 = h4.d(x); let d5 = h5.d(x);
}
pub proof fn lemma_swap_ab(h0: Hierarchy, t: Tree, h8: Hierarchy, a: int, b: int, x: int, v: NodeData)
    requires
        (x == a || x == b), isn(a), isn(b), a != b, refs(h0, t, hsw(a, b, x)),
        h8.d(x) == v, data_ren(h0.d(hsw(a, b, x)), v, x, hsw(a, b, x)),
        refs(h0, t, h0.d(hsw(a, b, x)).fst()), refs(h0, t, h0.d(hsw(a, b, x)).lst()),
    ensures ren_at(h0, h8, a, b, x),
{
}
pub proof fn lemma_swap(h0: Hierarchy, t: Tree, h1: Hierarchy, h2: Hierarchy, h3: Hierarchy, h4: Hierarchy, h5: Hierarchy, h6: Hierarchy, h7: Hierarchy, h8: Hierarchy, a: int, b: int, va: NodeData, vb: NodeData)
    requires
        h0.wf_t(t), h8.wf_c(), isn(a), isn(b), a != b,
        set_par(h0, h1, (t.ch)(a), b), set_par(h1, h2, (t.ch)(b), a),
        set_ends(h2, h3, h0.d(a), b), set_ends(h3, h4, h0.d(b), a),
        set_sibs(h4, h5, h0.d(a), b), set_sibs(h5, h6, h0.d(b), a),
        data_ren(h0.d(a), va, b, a), data_ren(h0.d(b), vb, a, b),
        set_data(h6, h7, a, vb), set_data(h7, h8, b, va),
    ensures renamed(h0, h8, a, b),
{
    hide(refs); hide(set_par); hide(set_ends); hide(set_sibs); hide(data_ren);
    lemma_refs(h0, t);
    assert forall|x: int| #[trigger] ren_at(h0, h8, a, b, x) by {
        let y = hsw(a, b, x);
        let d = h0.d(y);
        assert(refs(h0, t, x) && refs(h0, t, y) && refs(h0, t, a) && refs(h0, t, b));
        assert(refs(h0, t, d.par()) && refs(h0, t, d.fst()) && refs(h0, t, d.lst()));
        let d8 = h8.d(x); let d7 = h7.d(x); let d6 = h6.d(x);
        if x == a {
            lemma_swap_ab(h0, t, h8, a, b, x, vb);
        } else if x == b {
            lemma_swap_ab(h0, t, h8, a, b, x, va);
        } else {
            lemma_swap_frame(h0, t, h1, h2, h3, h4, h5, h6, a, b, x);
            lemma_swap_par(h0, t, h1, h2, a, b, x);
            lemma_swap_ends(h0, t, h2, h3, h4, a, b, x);
            lemma_swap_sibs(h0, t, h4, h5, h6, a, b, x);
        }
    }
    lemma_ren(h0, h8, t, a, b);
}
=== fn hierarchy Hierarchy::swap_nodes P=H02 lift=rekey_in_value:Hierarchy/swap__rekey_in_value: lift=rekey_in_data:Hierarchy/swap__rekey_in_data:
--- spec
requires old(self).wf(), a.wf(), b.wf(),
ensures renamed(*old(self), *final(self), a.i(), b.i()),
--- hint start
let ghost t = self.tree();
let ghost h0 = *self;
let ghost ai = a.i();
let ghost bi = b.i();
proof {
    assert(h0.wf_t(t));
    lemma_refs(h0, t);
    assert(refs(h0, t, ai) && refs(h0, t, bi));
    if ai == bi {
        assert forall|x: int| #[trigger] ren_at(h0, h0, ai, bi, x) by { }
        lemma_ren(h0, h0, t, ai, bi);
    }
}
--- hint before rekey_in_children#0
proof { lemma_tree_chain(h0, t, *self, ai); }
--- hint after rekey_in_children#0
let ghost h1 = *self;
proof { assert(is_chain(h0, a_data.fst(), (t.ch)(ai))); lemma_tree_chain(h0, t, *self, bi); }
--- hint after rekey_in_children#1
let ghost h2 = *self;
proof { assert(is_chain(h1, b_data.fst(), (t.ch)(bi))); }
--- hint after rekey_in_parent#0
let ghost h3 = *self;
--- hint after rekey_in_parent#1
let ghost h4 = *self;
--- hint after rekey_in_siblings#0
let ghost h5 = *self;
--- hint after rekey_in_siblings#1
let ghost h6 = *self;
--- hint after set#0
let ghost h7 = *self;
--- hint after set#1
proof { lemma_swap(h0, t, h1, h2, h3, h4, h5, h6, h7, *self, ai, bi, a_data, b_data); }
=== fn hierarchy Hierarchy::ensure_capacity P=H02
--- spec
requires old(self).wf(),
ensures final(self).data.same(old(self).data), final(self).data.data.len() <= top() + 1 ==> final(self).wf(),
--- hint end
proof { if self.data.data.len() <= top() + 1 { lemma_same(*old(self), *self); } }
=== raw hier_shrink
/// The elements of s below m, in order.
pub open spec fn below(s: Seq<int>, m: int) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { s } else if s.last() < m { below(s.drop_last(), m).push(s.last()) } else { below(s.drop_last(), m) }
}
/// Every node from m on was removed.
pub open spec fn cut(h0: Hierarchy, h1: Hierarchy, m: int) -> bool {
    &&& h1.wf()
    &&& forall|i: int| #![trigger h1.kids(i)] #![trigger h0.kids(i)] h1.kids(i) == (if i >= m { Seq::empty() } else { below(h0.kids(i), m) })
    &&& forall|x: int| #![trigger h1.d(x)] #![trigger h0.d(x)] h1.par(x) == (if x >= m || h0.par(x) >= m { -1 } else { h0.par(x) })
}
pub proof fn lemma_below_all(s: Seq<int>, m: int)
    requires forall|k: int| 0 <= k < s.len() ==> s[k] < m,
    ensures below(s, m) == s,
    decreases s.len(),
{
    if s.len() > 0 { lemma_below_all(s.drop_last(), m); assert(s =~= s.drop_last().push(s.last())); }
}
pub proof fn lemma_below_has(s: Seq<int>, m: int, n: int)
    ensures below(s, m).contains(n) == (s.contains(n) && n < m),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_last();
        lemma_below_has(r, m, n);
        assert(s =~= r.push(s.last()));
        lemma_push_has(r, s.last(), n);
        lemma_push_has(below(r, m), s.last(), n);
    }
}
pub proof fn lemma_push_has(r: Seq<int>, x: int, n: int)
    ensures r.push(x).contains(n) == (r.contains(n) || x == n),
{
    if r.contains(n) { let k = r.index_of(n); assert(r.push(x)[k] == n); }
    assert(r.push(x)[r.len() as int] == x);
    if r.push(x).contains(n) { let k = r.push(x).index_of(n); if k < r.len() { assert(r[k] == n); } }
}
pub proof fn lemma_without_push(r: Seq<int>, x: int, n: int)
    requires r.push(x).no_duplicates(),
    ensures
        x == n ==> without(r.push(x), n) == r,
        x != n && r.contains(n) ==> without(r.push(x), n) == without(r, n).push(x),
{
    let s = r.push(x);
    if x == n {
        assert(s[r.len() as int] == n);
        let k = s.index_of(n);
        assert(k == r.len());
        assert(s.remove(k) =~= r);
    } else if r.contains(n) {
        let k = r.index_of(n);
        assert(s[k] == n);
        assert(s.index_of(n) == k);
        assert(s.remove(k) =~= r.remove(k).push(x));
    }
}
pub proof fn lemma_below_nodup(s: Seq<int>, m: int)
    requires s.no_duplicates(),
    ensures below(s, m).no_duplicates(),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_last();
        lemma_below_nodup(r, m);
        lemma_below_has(r, m, s.last());
        if r.contains(s.last()) { let k = r.index_of(s.last()); assert(s[k] == s[s.len() - 1]); }
        if s.last() < m {
            let q = below(r, m);
            assert(!q.contains(s.last()));
            assert forall|a: int, b: int| 0 <= a < q.len() + 1 && 0 <= b < q.len() + 1 && a != b implies q.push(s.last())[a] != q.push(s.last())[b] by {
                if a < q.len() { assert(q.contains(q[a])); }
                if b < q.len() { assert(q.contains(q[b])); }
            }
        }
    }
}
pub proof fn lemma_below_step(s: Seq<int>, n: int)
    requires s.no_duplicates(),
    ensures
        s.contains(n) ==> without(below(s, n + 1), n) == below(s, n),
        !s.contains(n) ==> below(s, n + 1) == below(s, n),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_last();
        let x = s.last();
        lemma_below_step(r, n);
        lemma_push_has(r, x, n);
        assert(s =~= r.push(x));
        lemma_below_nodup(s, n + 1);
        lemma_below_has(r, n + 1, n);
        if x < n + 1 { lemma_without_push(below(r, n + 1), x, n); }
        if x == n && r.contains(n) { let k = r.index_of(n); assert(s[k] == s[s.len() - 1]); }
    }
}
pub proof fn lemma_nodup(h: Hierarchy, t: Tree, i: int)
    requires h.wf_t(t),
    ensures (t.ch)(i).no_duplicates(),
{
    let s = (t.ch)(i);
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
        assert(h.wf_at(t, i, a) && h.wf_at(t, i, b));
    }
}
/// Removing node m-1 after those from m on.
pub proof fn lemma_cut_step(h0: Hierarchy, h1: Hierarchy, h2: Hierarchy, n: int)
    requires h0.wf(), n >= 0, cut(h0, h1, n + 1), h_removed(h1, h2, n),
    ensures cut(h0, h2, n),
{
    let t = h0.tree();
    lemma_kids(h0, t);
    lemma_refs(h0, t);
    assert(refs(h0, t, n));
    assert forall|i: int| #![trigger h2.kids(i)] #![trigger h0.kids(i)] h2.kids(i) == (if i >= n { Seq::empty() } else { below(h0.kids(i), n) }) by {
        lemma_nodup(h0, t, i);
        lemma_below_step(h0.kids(i), n);
        let z = h1.kids(i);
        let y = h1.d(n);
        assert(h1.par(n) == (if h0.par(n) >= n + 1 { -1 } else { h0.par(n) }));
        assert(h0.kids(i).contains(n) ==> h0.par(n) == i);
        assert(h0.par(n) >= 0 ==> h0.kids(h0.par(n)).contains(n));
        if i < n {
            if i == h0.par(n) && i >= 0 { assert(h2.kids(i) == without(h1.kids(i), n)); }
            else {
                assert(h2.kids(i) == h1.kids(i));
                assert(!h0.kids(i).contains(n)) by { assert(h0.wf_ch(t, i)); }
            }
        }
    }
    assert forall|x: int| #![trigger h2.d(x)] #![trigger h0.d(x)] h2.par(x) == (if x >= n || h0.par(x) >= n { -1 } else { h0.par(x) }) by {
        let z = h1.d(x);
    }
}
pub proof fn lemma_cut_start(h0: Hierarchy, m: int)
    requires h0.wf(), h0.data.data.len() <= m,
    ensures cut(h0, h0, m),
{
    let t = h0.tree();
    lemma_kids(h0, t);
    lemma_refs(h0, t);
    assert forall|i: int| #![trigger h0.kids(i)] h0.kids(i) == (if i >= m { Seq::empty() } else { below(h0.kids(i), m) }) by {
        let s = h0.kids(i);
        assert(h0.wf_ch(t, i));
        assert forall|k: int| 0 <= k < s.len() implies s[k] < m by {
            assert(h0.wf_at(t, i, k) && h0.wf_ch(t, i));
            assert(refs(h0, t, s[k]));
        }
        if i >= m { assert(s =~= Seq::empty()); }
        lemma_below_all(s, m);
    }
    assert forall|x: int| #![trigger h0.d(x)] h0.par(x) == (if x >= m || h0.par(x) >= m { -1 } else { h0.par(x) }) by {
        assert(refs(h0, t, x));
        assert(refs(h0, t, h0.par(x)));
    }
}
/// Cutting the storage as well changes nothing more.
pub proof fn lemma_cut_end(h0: Hierarchy, h1: Hierarchy, h2: Hierarchy, m: int)
    requires
        h0.wf(), cut(h0, h1, m), h2.data.default == h1.data.default, h2.data.data.len() <= top() + 1,
        forall|j: int| #![trigger h2.data.at(j)] #![trigger h1.data.at(j)] h2.data.at(j) == (if j < m { h1.data.at(j) } else { h1.data.default }),
    ensures cut(h0, h2, m),
{
    let t1 = h1.tree();
    lemma_kids(h1, t1);
    lemma_refs(h1, t1);
    assert forall|x: int| #![trigger h2.d(x)] #![trigger h1.d(x)] h2.d(x).same(h1.d(x)) by {
        assert(refs(h1, t1, x));
        assert(h1.wf_ch(t1, x));
        let z = h1.kids(x);
    }
    lemma_same(h1, h2);
    assert forall|i: int| #![trigger h2.kids(i)] #![trigger h0.kids(i)] h2.kids(i) == (if i >= m { Seq::empty() } else { below(h0.kids(i), m) }) by { let z = h1.kids(i); }
    assert forall|x: int| #![trigger h2.d(x)] #![trigger h0.d(x)] h2.par(x) == (if x >= m || h0.par(x) >= m { -1 } else { h0.par(x) }) by { let z = h1.d(x); }
}
=== fn hierarchy Hierarchy::shrink_to P=H02
--- spec
requires old(self).wf(), vec_cap(old(self).data.data) <= top() + 1,
ensures cut(*old(self), *final(self), capacity as int),
--- hint start
let ghost h0 = *self;
let ghost cap = vec_cap(self.data.data) as int;
let ghost mut m: int = if capacity <= cap { cap } else { capacity as int };
proof { axiom_vec_cap(self.data.data); lemma_cut_start(h0, m); }
--- loop 0
invariant
    h0.wf(), capacity <= m, cut(h0, *self, m), m <= capacity || m <= top() + 1, cap <= top() + 1,
    $it.rest() == range_seq(capacity as int, m).reverse(),
ensures m == capacity,
--- hint loop0.start
let ghost hb = *self;
proof { let z = range_seq(capacity as int, m).reverse()[0]; }
--- hint loop0.end
proof {
    lemma_cut_step(h0, hb, *self, m - 1);
    m = m - 1;
    assert(range_seq(capacity as int, m + 1).reverse().skip(1) =~= range_seq(capacity as int, m).reverse());
}
--- hint before shrink_to#0
let ghost h1 = *self;
--- hint end
proof { lemma_cut_end(h0, h1, *self, capacity as int); }
=== type hierarchy Children derive=none
=== raw hier_children
impl Children<'_> {
    /// The iterator has the children lo..hi of p left.
    pub open spec fn shows(self, p: int, lo: int, hi: int) -> bool {
        let s = self.layout.kids(p);
        &&& self.layout.wf() && 0 <= lo <= hi <= s.len() && self.len == hi - lo
        &&& lo < hi ==> self.next.wf() && self.prev.wf() && ix(self.next) == s[lo] && ix(self.prev) == s[hi - 1]
    }
}
=== fn hierarchy Hierarchy::children P=H01
--- spec
requires self.wf(), node.wf(),
ensures r.layout == self, r.shows(node.i(), 0, self.kids(node.i()).len() as int),
--- hint start
let ghost t = self.tree();
proof { lemma_kids(*self, t); assert(self.wf_ch(t, node.i())); assert(self.d(node.i()).wf()); }
=== fn hierarchy Children::next of=Iterator P=H01 assoc=Item:NodeIndex on=Children<'_>
--- spec
requires exists|p: int, lo: int, hi: int| old(self).shows(p, lo, hi),
ensures
    final(self).layout == old(self).layout,
    forall|p: int, lo: int, hi: int| #[trigger] old(self).shows(p, lo, hi) ==> (
        if lo < hi { is_ix(r, old(self).layout.kids(p)[lo]) && final(self).shows(p, lo + 1, hi) }
        else { r.is_none() && final(self).shows(p, lo, hi) }),
--- hint start
let ghost c0 = *self;
let ghost h = *self.layout;
let ghost t = h.tree();
proof {
    lemma_kids(h, t);
    let (p, lo, hi) = choose|p: int, lo: int, hi: int| self.shows(p, lo, hi);
    if lo < hi { assert(h.wf_at(t, p, lo) && h.wf_ch(t, p)); }
    assert forall|p: int, lo: int, hi: int| #[trigger] c0.shows(p, lo, hi) && lo < hi implies h.par(c0.next.i()) == p by { assert(h.wf_at(t, p, lo)); }
}
=== fn hierarchy Children::next_back of=DoubleEndedIterator P=H01 assoc=Item:NodeIndex on=Children<'_>
--- spec
requires exists|p: int, lo: int, hi: int| old(self).shows(p, lo, hi),
ensures
    final(self).layout == old(self).layout,
    forall|p: int, lo: int, hi: int| #[trigger] old(self).shows(p, lo, hi) ==> (
        if lo < hi { is_ix(r, old(self).layout.kids(p)[hi - 1]) && final(self).shows(p, lo, hi - 1) }
        else { r.is_none() && final(self).shows(p, lo, hi) }),
--- hint start
let ghost c0 = *self;
let ghost h = *self.layout;
let ghost t = h.tree();
proof {
    lemma_kids(h, t);
    let (p, lo, hi) = choose|p: int, lo: int, hi: int| self.shows(p, lo, hi);
    if lo < hi { assert(h.wf_at(t, p, hi - 1) && h.wf_ch(t, p)); }
    assert forall|p: int, lo: int, hi: int| #[trigger] c0.shows(p, lo, hi) && lo < hi implies h.par(c0.prev.i()) == p by { assert(h.wf_at(t, p, hi - 1)); }
}
=== fn hierarchy Children::size_hint of=Iterator P=H01 on=Children<'_>
--- spec
ensures forall|p: int, lo: int, hi: int| #[trigger] self.shows(p, lo, hi) ==> r == ((hi - lo) as usize, Some((hi - lo) as usize)),
=== fn hierarchy Children::len of=ExactSizeIterator P=H01 on=Children<'_>
--- spec
ensures forall|p: int, lo: int, hi: int| #[trigger] self.shows(p, lo, hi) ==> r == hi - lo,
=== raw vecdeque P=H01
/// `std::collections::VecDeque` (assumed contracts).
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { x: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn q(self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.q() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(o: Option<T>) -> (r: Self) ensures r.q() == (match o { Some(x) => seq![x], None => Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.q().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).q().len() > 0 && x == old(self).q()[0] && final(self).q() == old(self).q().skip(1),
            None => old(self).q().len() == 0 && final(self).q() == old(self).q(),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self).q() == seq![x] + old(self).q() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self).q() == old(self).q().push(x) { unimplemented!() }
}
=== type hierarchy NextStates derive=none P=H01
=== type hierarchy Descendants derive=none P=H01
=== raw hier_descendants P=H01
impl Hierarchy {
    /// Distance to the root.
    pub open spec fn dep(self, x: int) -> int
        decreases (self.tree().rk)(x), 1int,
    {
        let p = self.par(x);
        if p >= 0 && 0 <= (self.tree().rk)(p) < (self.tree().rk)(x) { self.dep(p) + 1 } else { 0 }
    }
    /// x is in the subtree of c or of one of its later siblings.
    pub open spec fn rests(self, c: int, x: int) -> bool {
        let s = self.kids(self.par(c));
        exists|k: int| (self.tree().pos)(c) <= k < s.len() && self.under(x, #[trigger] s[k])
    }
}
impl Descendants<'_> {
    /// The nodes still to be visited.
    pub open spec fn pending(self, x: int) -> bool {
        match self.node_queue {
            NextStates::Root(r) => self.layout.under(x, r.i()),
            NextStates::Descendants(q) => exists|i: int| 0 <= i < q.q().len() && self.layout.rests(#[trigger] q.q()[i].i(), x),
        }
    }
    pub open spec fn inv(self) -> bool {
        let h = *self.layout;
        &&& h.wf()
        &&& match self.node_queue {
            NextStates::Root(r) => r.wf(),
            NextStates::Descendants(q) => {
                let s = q.q();
                &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].wf() && h.par(s[i].i()) >= 0
                &&& forall|i: int, j: int, x: int| #![trigger h.rests(s[i].i(), x), h.rests(s[j].i(), x)] 0 <= i < j < s.len() ==> !(h.rests(s[i].i(), x) && h.rests(s[j].i(), x))
                &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> h.dep(s[i].i()) <= h.dep(s[j].i()) <= h.dep(s[0].i()) + 1
            },
        }
    }
}
pub proof fn lemma_dep(h: Hierarchy, x: int)
    requires h.wf(),
    ensures h.dep(x) == (if h.par(x) >= 0 { h.dep(h.par(x)) + 1 } else { 0 }), h.dep(x) >= 0,
    decreases (h.tree().rk)(x),
{
    let t = h.tree();
    lemma_kids(h, t);
    assert(h.wf_up(t, x));
    if h.par(x) >= 0 { assert(h.wf_up(t, h.par(x))); lemma_dep(h, h.par(x)); }
}
/// Ancestors are not deeper.
pub proof fn lemma_dep_under(h: Hierarchy, x: int, k: nat, n: int)
    requires h.wf(), n >= 0, h.anc(x, k) == n,
    ensures h.dep(x) == h.dep(n) + k, k > 0 ==> exists|c: int| h.par(c) == n && #[trigger] h.under(x, c),
    decreases k,
{
    lemma_dep(h, x);
    if k > 0 {
        assert(h.par(x) >= 0);
        lemma_dep_under(h, h.par(x), (k - 1) as nat, n);
        if k == 1 {
            lemma_under_self(h, x);
            assert(h.anc(h.par(x), 0) == h.par(x) && h.anc(x, 1) == h.anc(h.par(x), 0));
            assert(h.par(x) == n);
            assert(h.under(x, x));
        } else {
            let c = choose|c: int| h.par(c) == n && #[trigger] h.under(h.par(x), c);
            let t = h.tree(); lemma_kids(h, t); lemma_refs(h, t); assert(refs(h, t, c));
            lemma_under(h, x, c);
            assert(h.par(c) == n && h.under(x, c));
        }
    }
}
pub proof fn lemma_under_self(h: Hierarchy, x: int)
    ensures h.under(x, x),
{ assert(h.anc(x, 0) == x); }
/// Siblings have disjoint subtrees.
pub proof fn lemma_sib_disjoint(h: Hierarchy, x: int, c: int, e: int)
    requires h.wf(), h.under(x, c), h.under(x, e), isn(c), isn(e), h.dep(c) == h.dep(e),
    ensures c == e,
{
    let i = choose|k: nat| #[trigger] h.anc(x, k) == c;
    let j = choose|k: nat| #[trigger] h.anc(x, k) == e;
    lemma_dep_under(h, x, i, c);
    lemma_dep_under(h, x, j, e);
}
/// The nodes under c and its later siblings, split at c.
pub proof fn lemma_rests(h: Hierarchy, c: int, x: int)
    requires h.wf(), isn(c), h.par(c) >= 0,
    ensures
        h.rests(c, x) == (h.under(x, c) || (h.d(c).nxt() >= 0 && h.rests(h.d(c).nxt(), x))),
        h.d(c).nxt() >= 0 ==> !(h.under(x, c) && h.rests(h.d(c).nxt(), x)),
        h.d(c).nxt() >= 0 ==> isn(h.d(c).nxt()) && h.par(h.d(c).nxt()) == h.par(c) && h.dep(h.d(c).nxt()) == h.dep(c),
        h.rests(c, x) ==> h.dep(x) >= h.dep(c),
{
    let t = h.tree();
    lemma_kids(h, t);
    let p = h.par(c);
    let s = h.kids(p);
    let k0 = (t.pos)(c);
    assert(h.wf_up(t, c));
    assert(s == (t.ch)(p));
    assert(0 <= k0 < s.len());
    assert(h.wf_at(t, p, k0));
    let e = h.d(c).nxt();
    if k0 + 1 < s.len() { assert(h.wf_at(t, p, k0 + 1)); lemma_dep(h, e); }
    lemma_dep(h, c);
    if h.rests(c, x) {
        let k = choose|k: int| k0 <= k < s.len() && h.under(x, #[trigger] s[k]);
        assert(h.wf_at(t, p, k));
        if k > k0 { assert(h.rests(e, x)); }
        let m = choose|m: nat| #[trigger] h.anc(x, m) == s[k];
        lemma_dep_under(h, x, m, s[k]);
        lemma_dep(h, s[k]);
    }
    if h.under(x, c) { assert(h.under(x, s[k0])); }
    if e >= 0 && h.rests(e, x) {
        let k = choose|k: int| k0 + 1 <= k < s.len() && h.under(x, #[trigger] s[k]);
        assert(h.wf_at(t, p, k));
        assert(h.under(x, s[k]));
        if h.under(x, c) { lemma_dep(h, s[k]); lemma_sib_disjoint(h, x, c, s[k]); }
    }
}
/// The nodes under n, split at n.
pub proof fn lemma_subtree(h: Hierarchy, n: int, x: int)
    requires h.wf(), isn(n),
    ensures
        h.under(x, n) == (x == n || (h.d(n).fst() >= 0 && h.rests(h.d(n).fst(), x))),
        h.d(n).fst() >= 0 ==> !h.rests(h.d(n).fst(), n),
        h.d(n).fst() >= 0 ==> isn(h.d(n).fst()) && h.par(h.d(n).fst()) == n && h.dep(h.d(n).fst()) == h.dep(n) + 1,
{
    let t = h.tree();
    lemma_kids(h, t);
    let s = h.kids(n);
    assert(h.wf_ch(t, n) && h.wf_up(t, n));
    let f = h.d(n).fst();
    if s.len() > 0 { assert(h.wf_at(t, n, 0)); lemma_dep(h, f); lemma_rests(h, f, n); }
    lemma_under_self(h, n);
    if h.under(x, n) && x != n {
        let k = choose|k: nat| #[trigger] h.anc(x, k) == n;
        lemma_dep_under(h, x, k, n);
        let c = choose|c: int| h.par(c) == n && #[trigger] h.under(x, c);
        assert(h.wf_up(t, c));
        assert(h.under(x, s[(t.pos)(c)]));
        assert(h.rests(f, x));
    }
    if f >= 0 && h.rests(f, x) {
        let k = choose|k: int| (t.pos)(f) <= k < s.len() && h.under(x, #[trigger] s[k]);
        assert(h.wf_at(t, n, k));
        let m = choose|m: nat| #[trigger] h.anc(x, m) == s[k];
        lemma_anc_par(h, x, m);
        assert(h.anc(x, m + 1) == n);
    }
}
pub proof fn lemma_anc_par(h: Hierarchy, x: int, m: nat)
    requires h.anc(x, m) >= 0, h.par(h.anc(x, m)) >= 0,
    ensures h.anc(x, m + 1) == h.par(h.anc(x, m)),
    decreases m,
{
    if m > 0 { assert(h.par(x) >= 0); lemma_anc_par(h, h.par(x), (m - 1) as nat); }
    else { assert(h.anc(h.par(x), 0) == h.par(x)); }
}
=== fn hierarchy Hierarchy::descendants P=H01
--- spec
requires self.wf(), node.wf(),
ensures r.inv(), r.layout == self, forall|x: int| #[trigger] r.pending(x) == self.under(x, node.i()),
=== fn hierarchy NextStates::len P=H01
--- spec
ensures r == (match *self { NextStates::Root(_) => 1, NextStates::Descendants(q) => q.q().len() }),
=== raw hier_bfs P=H01
/// x was taken from the queue; its next sibling and its first child took its place.
pub open spec fn q_next(h: Hierarchy, s0: Seq<NodeIndex>, s1: Seq<NodeIndex>) -> bool {
    let x = s0[0].i();
    let a = if h.d(x).nxt() >= 0 { seq![NodeIndex::mk(h.d(x).nxt())] } else { Seq::<NodeIndex>::empty() };
    let b = if h.d(x).fst() >= 0 { seq![NodeIndex::mk(h.d(x).fst())] } else { Seq::<NodeIndex>::empty() };
    s1 == a + s0.skip(1) + b
}
pub open spec fn q_has(h: Hierarchy, s: Seq<NodeIndex>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && h.rests(#[trigger] s[i].i(), x) }
pub open spec fn q_ok(h: Hierarchy, s: Seq<NodeIndex>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i].wf() && h.par(s[i].i()) >= 0
    &&& forall|i: int, j: int, x: int| #![trigger h.rests(s[i].i(), x), h.rests(s[j].i(), x)] 0 <= i < j < s.len() ==> !(h.rests(s[i].i(), x) && h.rests(s[j].i(), x))
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> h.dep(s[i].i()) <= h.dep(s[j].i()) <= h.dep(s[0].i()) + 1
}
/// Where an entry of the new queue comes from.
pub open spec fn q_src(h: Hierarchy, s0: Seq<NodeIndex>, s1: Seq<NodeIndex>, i: int) -> bool {
    let x = s0[0].i();
    let c = s1[i].i();
    let o = if h.d(x).nxt() >= 0 { 0int } else { 1int };
    if i + o == 0 { c == h.d(x).nxt() && c >= 0 } else if i + o < s0.len() { s1[i] == s0[i + o] } else { i + o == s0.len() && c == h.d(x).fst() && c >= 0 }
}
pub proof fn lemma_q_next(h: Hierarchy, s0: Seq<NodeIndex>, s1: Seq<NodeIndex>, y: int)
    requires h.wf(), q_ok(h, s0), s0.len() > 0, q_next(h, s0, s1),
    ensures
        isn(s0[0].i()), q_has(h, s0, s0[0].i()),
        q_has(h, s1, y) == (q_has(h, s0, y) && y != s0[0].i()),
        q_has(h, s0, y) ==> h.dep(y) >= h.dep(s0[0].i()),
{
    let x = s0[0].i();
    let t = h.tree();
    lemma_kids(h, t); lemma_refs(h, t);
    assert(refs(h, t, x));
    lemma_q_src(h, s0, s1);
    let o = if h.d(x).nxt() >= 0 { 0int } else { 1int };
    lemma_rests(h, x, x);
    lemma_under_self(h, x);
    assert(h.rests(s0[0].i(), x));
    lemma_rests(h, x, y);
    lemma_subtree(h, x, y);
    if h.d(x).fst() >= 0 { lemma_subtree(h, x, x); }
    if q_has(h, s0, y) {
        let i = choose|i: int| 0 <= i < s0.len() && h.rests(#[trigger] s0[i].i(), y);
        lemma_rests(h, s0[i].i(), y);
        if i == 0 {
            if y != x {
                if h.under(y, x) { assert(h.rests(s1[s1.len() - 1].i(), y)) by { assert(q_src(h, s0, s1, s1.len() - 1)); } }
                else { assert(h.rests(s1[0].i(), y)) by { assert(q_src(h, s0, s1, 0)); } }
            }
        } else {
            assert(q_src(h, s0, s1, i - o));
            assert(h.rests(s1[i - o].i(), y));
            if y == x { assert(h.rests(s0[0].i(), x) && h.rests(s0[i].i(), x)); }
        }
    }
    if q_has(h, s1, y) {
        let i = choose|i: int| 0 <= i < s1.len() && h.rests(#[trigger] s1[i].i(), y);
        assert(q_src(h, s0, s1, i));
        if 0 < i + o < s0.len() {
            assert(h.rests(s0[i + o].i(), y));
            if y == x { assert(h.rests(s0[0].i(), x) && h.rests(s0[i + o].i(), x)); }
        } else {
            assert(h.rests(s0[0].i(), y));
        }
    }
}
pub proof fn lemma_q_src(h: Hierarchy, s0: Seq<NodeIndex>, s1: Seq<NodeIndex>)
    requires h.wf(), q_ok(h, s0), s0.len() > 0, q_next(h, s0, s1),
    ensures
        s1.len() == s0.len() - (if h.d(s0[0].i()).nxt() >= 0 { 0int } else { 1int }) + (if h.d(s0[0].i()).fst() >= 0 { 1int } else { 0int }),
        forall|i: int| #![trigger q_src(h, s0, s1, i)] 0 <= i < s1.len() ==> q_src(h, s0, s1, i),
{
    let x = s0[0].i();
    let t = h.tree();
    lemma_kids(h, t); lemma_refs(h, t);
    assert(refs(h, t, x));
}
pub proof fn lemma_q_ok(h: Hierarchy, s0: Seq<NodeIndex>, s1: Seq<NodeIndex>)
    requires h.wf(), q_ok(h, s0), s0.len() > 0, q_next(h, s0, s1),
    ensures q_ok(h, s1),
{
    let x = s0[0].i();
    let t = h.tree();
    lemma_kids(h, t); lemma_refs(h, t);
    assert(refs(h, t, x));
    lemma_q_src(h, s0, s1);
    let o = if h.d(x).nxt() >= 0 { 0int } else { 1int };
    lemma_rests(h, x, x);
    lemma_subtree(h, x, x);
    assert forall|i: int| #![trigger s1[i]] 0 <= i < s1.len() implies s1[i].wf() && h.par(s1[i].i()) >= 0 by {
        assert(q_src(h, s0, s1, i));
        if 0 < i + o < s0.len() { let z = s0[i + o]; }
        else { assert(refs(h, t, s1[i].i())); assert(refs(h, t, h.d(x).nxt())); assert(refs(h, t, h.d(x).fst())); }
    }
    assert forall|i: int, j: int, y: int| #![trigger h.rests(s1[i].i(), y), h.rests(s1[j].i(), y)] 0 <= i < j < s1.len() implies !(h.rests(s1[i].i(), y) && h.rests(s1[j].i(), y)) by {
        assert(q_src(h, s0, s1, i) && q_src(h, s0, s1, j));
        lemma_rests(h, x, y);
        lemma_subtree(h, x, y);
        let ii = if 0 < i + o < s0.len() { i + o } else { 0 };
        let jj = if 0 < j + o < s0.len() { j + o } else { 0 };
        assert(h.rests(s1[i].i(), y) ==> h.rests(s0[ii].i(), y));
        assert(h.rests(s1[j].i(), y) ==> h.rests(s0[jj].i(), y));
    }
    assert forall|i: int, j: int| #![trigger s1[i], s1[j]] 0 <= i < j < s1.len() implies h.dep(s1[i].i()) <= h.dep(s1[j].i()) <= h.dep(s1[0].i()) + 1 by {
        assert(q_src(h, s0, s1, i) && q_src(h, s0, s1, j) && q_src(h, s0, s1, 0));
        let z = s0[0];
        if 0 < i + o < s0.len() { let z = s0[i + o]; }
        if 0 < j + o < s0.len() { let z = s0[j + o]; }
        if 0 < o < s0.len() { let z = s0[o]; }
    }
}
pub proof fn lemma_q_one(h: Hierarchy, r: int, s: Seq<NodeIndex>, y: int)
    requires h.wf(), isn(r), s == (if h.d(r).fst() >= 0 { seq![NodeIndex::mk(h.d(r).fst())] } else { Seq::<NodeIndex>::empty() }),
    ensures
        q_ok(h, s), q_has(h, s, y) == (h.under(y, r) && y != r), h.under(r, r),
        h.under(y, r) ==> h.dep(y) >= h.dep(r),
{
    let t = h.tree();
    lemma_kids(h, t); lemma_refs(h, t);
    assert(refs(h, t, r));
    lemma_subtree(h, r, y);
    lemma_subtree(h, r, r);
    lemma_under_self(h, r);
    if h.d(r).fst() >= 0 {
        assert(refs(h, t, h.d(r).fst()));
        assert(s[0].i() == h.d(r).fst());
        assert(h.rests(h.d(r).fst(), y) ==> h.rests(s[0].i(), y));
    }
    if h.under(y, r) {
        let m = choose|m: nat| #[trigger] h.anc(y, m) == r;
        lemma_dep_under(h, y, m, r);
    }
}
=== fn hierarchy Descendants::next of=Iterator P=H01 assoc=Item:NodeIndex on=Descendants<'_>
--- spec
requires old(self).inv(),
ensures
    final(self).inv(), final(self).layout == old(self).layout,
    match r {
        Some(x) => x.wf() && old(self).pending(x.i())
            && (forall|y: int| #[trigger] final(self).pending(y) == (old(self).pending(y) && y != x.i()))
            && (forall|y: int| #[trigger] old(self).pending(y) ==> old(self).layout.dep(y) >= old(self).layout.dep(x.i())),
        None => forall|y: int| !#[trigger] old(self).pending(y) && !final(self).pending(y),
    },
--- hint start
let ghost h = *self.layout;
let ghost t = h.tree();
let ghost d0 = *self;
proof {
    lemma_kids(h, t); lemma_refs(h, t);
    assert(forall|x: int| #[trigger] h.wf_up(t, x));
    match d0.node_queue {
        NextStates::Root(r) => {
            assert(refs(h, t, r.i()) && h.wf_ch(t, r.i()));
            let s = if h.d(r.i()).fst() >= 0 { seq![NodeIndex::mk(h.d(r.i()).fst())] } else { Seq::<NodeIndex>::empty() };
            assert forall|y: int| #![trigger q_has(h, s, y)] #![trigger h.under(y, r.i())] q_ok(h, s) && q_has(h, s, y) == (h.under(y, r.i()) && y != r.i()) && h.under(r.i(), r.i()) && (h.under(y, r.i()) ==> h.dep(y) >= h.dep(r.i())) by { lemma_q_one(h, r.i(), s, y); }
            lemma_q_one(h, r.i(), s, r.i());
        },
        NextStates::Descendants(q) => {
            assert(q_ok(h, q.q()));
            if q.q().len() > 0 {
                let x = q.q()[0].i();
                assert(refs(h, t, x) && h.wf_ch(t, x) && h.wf_up(t, x));
                lemma_sib(h, x);
            }
        },
    }
}
--- hint end
proof {
    let s0 = d0.node_queue->Descendants_0.q();
    let s1 = self.node_queue->Descendants_0.q();
    let x = s0[0].i();
    let a = if h.d(x).nxt() >= 0 { seq![NodeIndex::mk(h.d(x).nxt())] } else { Seq::<NodeIndex>::empty() };
    let b = if h.d(x).fst() >= 0 { seq![NodeIndex::mk(h.d(x).fst())] } else { Seq::<NodeIndex>::empty() };
    assert(s1 =~= a + s0.skip(1) + b);
    assert(q_next(h, s0, s1));
    lemma_q_ok(h, s0, s1);
    assert forall|y: int| #![trigger self.pending(y)] #![trigger d0.pending(y)] self.pending(y) == (d0.pending(y) && y != x) && (d0.pending(y) ==> h.dep(y) >= h.dep(x)) by { lemma_q_next(h, s0, s1, y); assert(self.pending(y) == q_has(h, s1, y)); assert(d0.pending(y) == q_has(h, s0, y)); }
    lemma_q_next(h, s0, s1, x);
    assert(d0.pending(x) == q_has(h, s0, x));
}
=== fn hierarchy Descendants::size_hint of=Iterator P=H01 on=Descendants<'_>
--- spec
ensures r.1.is_none(),
