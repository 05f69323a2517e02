//! Executable contracts of the secondary maps, and of graphs with weights that
//! follow the rekey callbacks.
use crate::core::{ni, pi};
use crate::engine::*;
use ::portgraph::portgraph::PortOperation;
use ::portgraph::{
    Direction, Hierarchy, LinkMut, LinkView, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortMut,
    SecondaryMap, UnmanagedDenseMap, Weights,
};
use bitvec::vec::BitVec;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;

const K: usize = 7;

struct Opts {
    /// keys of the iterator are increasing
    ordered: bool,
    /// the iterator may also yield default entries (known finding)
    lax: bool,
}

fn same<V: PartialEq + Clone + Debug, S: SecondaryMap<usize, V>>(s: &S, m: &BTreeMap<usize, V>, d: &V, o: &Opts, cl: &mut u64) -> R
{
    ensure!(s.default_value() == *d, "default_value() = {:?}, expected {d:?}", s.default_value());
    for k in 0..K + 70 {
        let w = m.get(&k).unwrap_or(d);
        ensure!(s.get(k) == w, "get({k}) = {:?}, expected {w:?}", s.get(k));
    }
    let mut got: Vec<(usize, V)> = s.iter().take(1000).map(|(k, v)| (k, v.clone())).collect();
    if o.ordered {
        ensure!(got.windows(2).all(|w| w[0].0 < w[1].0), "iter() is not in increasing key order: {got:?}");
    } else {
        got.sort_by_key(|x| x.0);
    }
    if o.lax {
        got.retain(|x| x.1 != *d);
    }
    let want: Vec<(usize, V)> = m.iter().filter(|x| x.1 != d).map(|(k, v)| (*k, v.clone())).collect();
    ensure!(got == want, "iter() yields {got:?}, expected {want:?}");
    let (lo, hi) = s.iter().size_hint();
    let n = s.iter().count();
    ensure!(lo <= n && hi.map_or(true, |h| n <= h), "iter().size_hint() = {:?}, count {n}", (lo, hi));
    for j in 0..n + 1 {
        let a = s.iter().nth(j).map(|x| (x.0, x.1.clone()));
        let b = s.iter().skip(j).next().map(|x| (x.0, x.1.clone()));
        ensure!(a == b, "iter().nth({j}) = {a:?}, expected {b:?}");
    }
    *cl += 80 + n as u64;
    Ok(())
}

fn common<V: PartialEq + Clone + Debug, S: SecondaryMap<usize, V>>(
    c: &mut Ctx,
    s: &mut S,
    m: &mut BTreeMap<usize, V>,
    d: &V,
    val: &dyn Fn(&mut Ctx) -> V,
) -> R {
    let (a, b) = (c.below(K), c.below(K));
    let far = if c.chance(10) { 64 } else { 0 };
    let a = a + far;
    match c.below(8) {
        0 | 1 | 2 => {
            let v = val(c);
            c.t(|| format!("set({a},{v:?})"));
            s.set(a, v.clone());
            m.insert(a, v);
        }
        3 => {
            c.t(|| format!("take({a})"));
            let v = s.take(a);
            let w = m.remove(&a).unwrap_or(d.clone());
            ensure!(v == w, "take({a}) = {v:?}, expected {w:?}");
        }
        4 => {
            c.t(|| format!("remove({a})"));
            s.remove(a);
            m.remove(&a);
        }
        5 => {
            c.t(|| format!("swap({a},{b})"));
            s.swap(a, b);
            let (x, y) = (m.remove(&a), if a == b { None } else { m.remove(&b) });
            if let Some(x) = x {
                m.insert(b, x);
            }
            if let Some(y) = y {
                m.insert(a, y);
            }
        }
        6 => {
            let new = if c.chance(3) { None } else { Some(b) };
            c.t(|| format!("rekey({a},{new:?})"));
            s.rekey(a, new);
            let x = m.remove(&a).unwrap_or(d.clone());
            if let Some(b) = new {
                m.insert(b, x);
            }
        }
        _ => {
            c.t(|| format!("ensure_capacity({a})"));
            s.ensure_capacity(a);
            ensure!(s.capacity() >= a, "capacity() = {} after ensure_capacity({a})", s.capacity());
        }
    }
    Ok(())
}

pub fn dense(c: &mut Ctx) -> R {
    let d = [0, 4, -1][c.below(3)];
    let mut s: UnmanagedDenseMap<usize, i32> = match c.below(if d == 0 { 4 } else { 2 }) {
        0 => UnmanagedDenseMap::with_default(d),
        1 => UnmanagedDenseMap::with_capacity_and_default(c.below(4), d),
        2 => SecondaryMap::new(),
        _ => UnmanagedDenseMap::with_capacity(c.below(4)),
    };
    c.t(|| format!("default {d}"));
    let mut m = BTreeMap::new();
    let mut cl = 0;
    let o = Opts { ordered: true, lax: true };
    for _ in 0..1 + c.below(16) {
        if !c.chance(3) {
            common(c, &mut s, &mut m, &d, &|c| c.below(6) as i32)?;
        } else {
            let a = c.below(K);
            match c.below(7) {
                0 => {
                    let v = c.below(9) as i32;
                    c.t(|| format!("*get_mut({a}) = {v}"));
                    let r = s.get_mut(a);
                    ensure!(*r == *m.get(&a).unwrap_or(&d), "get_mut({a}) = {r}");
                    *r = v;
                    m.insert(a, v);
                }
                1 => {
                    let v = c.below(9) as i32;
                    c.t(|| format!("try_get_mut({a}) = {v}"));
                    let w = *m.get(&a).unwrap_or(&d);
                    match s.try_get_mut(a) {
                        Some(r) => {
                            ensure!(*r == w, "try_get_mut({a}) = {r}, expected {w}");
                            *r = v;
                            m.insert(a, v);
                        }
                        None => ensure!(w == d, "try_get_mut({a}) = None although the value is {w}"),
                    }
                }
                2 => {
                    c.t(|| format!("shrink_to({a})"));
                    s.shrink_to(a);
                    m.retain(|k, _| *k < a);
                }
                3 => {
                    let ks = [c.below(K), c.below(K), c.below(K)];
                    c.t(|| format!("get_disjoint_mut({ks:?})"));
                    let dis = ks[0] != ks[1] && ks[1] != ks[2] && ks[0] != ks[2];
                    match s.get_disjoint_mut(ks) {
                        None => ensure!(!dis, "get_disjoint_mut({ks:?}) = None"),
                        Some(rs) => {
                            ensure!(dis, "get_disjoint_mut({ks:?}) returned aliasing borrows");
                            for (i, r) in rs.into_iter().enumerate() {
                                let w = *m.get(&ks[i]).unwrap_or(&d);
                                ensure!(*r == w, "get_disjoint_mut({ks:?})[{i}] = {r}, expected {w}");
                                *r = i as i32 + 10;
                                m.insert(ks[i], i as i32 + 10);
                            }
                        }
                    }
                }
                4 => {
                    c.t(|| "clone".into());
                    let t = s.clone();
                    ensure!(t == s, "clone differs");
                    s = t;
                }
                5 => {
                    c.t(|| "serde round trip".into());
                    let t: UnmanagedDenseMap<usize, i32> =
                        serde_json::from_slice(&serde_json::to_vec(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                    ensure!(t == s, "deserialized map differs");
                    s = t;
                }
                _ => {
                    // equality ignores how a map was built
                    let mut t = UnmanagedDenseMap::with_default(d);
                    let mut ks: Vec<_> = m.iter().filter(|x| c.flip() || *x.1 != d).collect();
                    ks.reverse();
                    for (k, v) in ks {
                        t[*k] = *v;
                    }
                    ensure!(t == s && s == t, "maps with equal contents differ");
                    let w = *t.get(a);
                    t[a] = w + 1;
                    ensure!(t != s && s != t, "maps with different contents at {a} are equal");
                }
            }
        }
        same(&s, &m, &d, &o, &mut cl)?;
        for k in 0..K {
            ensure!(s[k] == *m.get(&k).unwrap_or(&d), "s[{k}] = {}", s[k]);
        }
    }
    c.n(cl);
    Ok(())
}

pub fn bits(c: &mut Ctx) -> R {
    let mut s: BitVec = if c.flip() { <BitVec as SecondaryMap<usize, bool>>::new() } else { <BitVec as SecondaryMap<usize, bool>>::with_capacity(c.below(80)) };
    let mut m = BTreeMap::new();
    let mut cl = 0;
    for _ in 0..1 + c.below(20) {
        common(c, &mut s, &mut m, &false, &|c| c.flip())?;
        same(&s, &m, &false, &Opts { ordered: true, lax: false }, &mut cl)?;
        let mut bw: Vec<usize> = SecondaryMap::<usize, bool>::iter(&s).rev().map(|x| x.0).collect();
        bw.reverse();
        let fw: Vec<usize> = SecondaryMap::<usize, bool>::iter(&s).map(|x| x.0).collect();
        ensure!(bw == fw, "reversed iteration differs");
    }
    c.n(cl);
    Ok(())
}

pub fn hashset(c: &mut Ctx) -> R {
    let mut s: HashSet<usize> = HashSet::new();
    let mut m = BTreeMap::new();
    let mut cl = 0;
    for _ in 0..1 + c.below(20) {
        common(c, &mut s, &mut m, &false, &|c| c.flip())?;
        same(&s, &m, &false, &Opts { ordered: false, lax: false }, &mut cl)?;
    }
    c.n(cl);
    Ok(())
}

type PK = (u32, Direction, usize);

/// A graph whose weights, hierarchy and port weights are kept in sync through
/// the rekey callbacks, as documented.
fn follow<G>(c: &mut Ctx, mut g: G) -> R
where
    G: PortMut + LinkMut + LinkView,
{
    let mut w: Weights<u32, u32> = Weights::new();
    let mut bits: BitVec = BitVec::new();
    let mut h = Hierarchy::new();
    let mut tag: BTreeMap<usize, u32> = BTreeMap::new();
    let mut ptag: BTreeMap<PK, u32> = BTreeMap::new();
    let mut parent: BTreeMap<u32, u32> = BTreeMap::new();
    let mut fresh = 1u32;
    let mut cl = 0;
    let use_swap = c.flip();
    for _ in 0..3 + c.below(30) {
        let nodes: Vec<usize> = tag.keys().copied().collect();
        match c.weighted(&[5, 2, 6, 5, 2, 2, 3, 2]) {
            0 => {
                let (i, o) = (c.below(4), c.below(4));
                let n = g.add_node(i, o).index();
                c.t(|| format!("add_node({i},{o}) = {n}"));
                fresh += 1;
                tag.insert(n, fresh);
                w[ni(n)] = fresh;
                bits.set(ni(n), fresh % 2 == 0);
                for d in Direction::BOTH {
                    let ps: Vec<PortIndex> = g.ports(ni(n), d).collect();
                    for (k, p) in ps.into_iter().enumerate() {
                        fresh += 1;
                        w[p] = fresh;
                        ptag.insert((tag[&n], d, k), fresh);
                    }
                }
            }
            1 if !nodes.is_empty() => {
                let n = c.pick(&nodes);
                c.t(|| format!("remove_node({n})"));
                let ps: Vec<PortIndex> = g.all_ports(ni(n)).collect();
                g.remove_node(ni(n));
                w.nodes.remove(ni(n));
                for p in ps {
                    w.ports.remove(p);
                }
                SecondaryMap::<NodeIndex, bool>::remove(&mut bits, ni(n));
                h.remove(ni(n));
                let t = tag.remove(&n).unwrap();
                ptag.retain(|k, _| k.0 != t);
                parent.retain(|a, b| *a != t && *b != t);
            }
            2 => {
                let ports: Vec<PortIndex> = g.ports_iter().collect();
                if !ports.is_empty() {
                    let (a, b) = (c.pick(&ports), c.pick(&ports));
                    c.t(|| format!("link_ports({a:?},{b:?})"));
                    let _ = g.link_ports(a, b);
                }
            }
            3 if !nodes.is_empty() => {
                let n = c.pick(&nodes);
                let (i, o) = (c.below(6), c.below(6));
                c.t(|| format!("set_num_ports({n},{i},{o}) [{}]", if use_swap { "swap" } else { "rekey" }));
                let ws = &mut w;
                no_panic(|| g.set_num_ports(ni(n), i, o, |old, op| match op {
                    PortOperation::Removed { .. } => ws.ports.remove(old),
                    PortOperation::Moved { new_index } if use_swap => ws.ports.swap(old, new_index),
                    PortOperation::Moved { .. } => ws.ports.rekey(old, op.new_index()),
                }))
                .map_err(|e| format!("set_num_ports({n},{i},{o}) {e}"))?;
                let t = tag[&n];
                ptag.retain(|k, _| k.0 != t || k.2 < if k.1 == Direction::Incoming { i } else { o });
                for (d, k) in [(Direction::Incoming, i), (Direction::Outgoing, o)] {
                    for x in 0..k {
                        ptag.entry((t, d, x)).or_insert(0);
                    }
                }
                c.label("resize");
            }
            4 => {
                c.t(|| "compact_nodes".into());
                let (ws, hs, bs) = (&mut w, &mut h, &mut bits);
                no_panic(|| {
                    g.compact_nodes(|a: NodeIndex, b: NodeIndex| {
                        ws.nodes.rekey(a, Some(b));
                        hs.rekey(a, b);
                        bs.rekey(a, Some(b));
                    })
                })
                .map_err(|e| format!("compact_nodes with weights and a hierarchy following the callback {e}"))?;
                let all: Vec<usize> = g.nodes_iter().map(|n| n.index()).collect();
                ensure!(all.len() == tag.len(), "compact_nodes changed the number of nodes");
                tag = all.into_iter().zip(tag.into_values()).collect();
                c.label("compact_nodes");
            }
            5 => {
                c.t(|| "compact_ports".into());
                let ws = &mut w;
                g.compact_ports(|a: PortIndex, b: PortIndex| ws.ports.rekey(a, Some(b)));
                c.label("compact_ports");
            }
            6 if !nodes.is_empty() => {
                let (a, b) = (c.pick(&nodes), c.pick(&nodes));
                c.t(|| format!("push_child({a},{b})"));
                let mut cyc = false;
                let mut x = Some(tag[&b]);
                while let Some(y) = x {
                    cyc |= y == tag[&a];
                    x = parent.get(&y).copied();
                }
                if h.push_child(ni(a), ni(b)).is_ok() {
                    ensure!(!cyc, "push_child({a},{b}) made a cycle");
                    parent.insert(tag[&a], tag[&b]);
                }
            }
            7 if nodes.len() > 1 => {
                let (a, b) = (c.pick(&nodes), c.pick(&nodes));
                c.t(|| format!("swap_nodes({a},{b})"));
                g.swap_nodes(ni(a), ni(b));
                w.nodes.swap(ni(a), ni(b));
                bits.swap(ni(a), ni(b));
                h.swap_nodes(ni(a), ni(b));
                let (x, y) = (tag[&a], tag[&b]);
                tag.insert(a, y);
                tag.insert(b, x);
            }
            _ => {}
        }
        let inv: BTreeMap<u32, usize> = tag.iter().map(|(a, b)| (*b, *a)).collect();
        for (n, t) in &tag {
            let last = c.last().to_string();
            ensure!(w[ni(*n)] == *t, "after {last}: node {n} has the weight {}, it was given {t}", w[ni(*n)]);
            let b: bool = *SecondaryMap::<NodeIndex, bool>::get(&bits, ni(*n));
            ensure!(b == (*t % 2 == 0), "after {last}: flag of node {n} is {b}");
            let want = parent.get(t).map(|p| inv[p]);
            ensure!(h.parent(ni(*n)).map(|p| p.index()) == want, "after {last}: parent({n}) = {:?}, expected {want:?}", h.parent(ni(*n)));
            for d in Direction::BOTH {
                for (k, p) in g.ports(ni(*n), d).enumerate() {
                    let e = ptag.get(&(*t, d, k)).copied().unwrap_or(0);
                    if e != 0 {
                        ensure!(w[p] == e, "after {last}: port {} ({d:?} {k} of node {n}) has the weight {}, it was given {e}", p.index(), w[p]);
                    }
                    cl += 1;
                }
            }
        }
        // ports added by a resize may reuse slots; give them weights now
        for (n, t) in &tag {
            for d in Direction::BOTH {
                for (k, p) in g.ports(ni(*n), d).enumerate() {
                    let e = ptag.get_mut(&(*t, d, k)).unwrap();
                    if *e == 0 {
                        ensure!(w[p] == 0, "after {}: the new port {} starts with the weight {} of another port", c.last(), p.index(), w[p]);
                        fresh += 1;
                        *e = fresh;
                        w[p] = fresh;
                    }
                }
            }
        }
    }
    let _ = pi(0);
    c.n(cl);
    Ok(())
}

pub fn follow_pg(c: &mut Ctx) -> R {
    follow(c, PortGraph::<u32, u32, u16>::new())
}
pub fn follow_mpg(c: &mut Ctx) -> R {
    follow(c, MultiPortGraph::<u32, u32, u16>::new())
}
