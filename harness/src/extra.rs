//! Executable contracts of the index types, of serialisation, of the query
//! interface over arbitrary histories, and of the petgraph adaptor.
use crate::core::*;
use crate::engine::*;
use crate::gen::{build, forest, subset, Shape};
use crate::{hier, mpg, pg};
use ::portgraph::index::{MaybeNodeIndex, MaybePortIndex, Unsigned};
use ::portgraph::view::filter::{LinkFilter, NodeFilter};
use ::portgraph::view::{FilteredGraph, FlatRegion, Region, Subgraph};
use ::portgraph::{Direction, Hierarchy, MultiPortGraph, NodeIndex, PortGraph, PortIndex, PortMut, PortOffset, UnmanagedDenseMap, Weights};
use std::collections::{BTreeMap, BTreeSet, HashSet};

// ---------------------------------------------------------------- queries

pub fn queries(c: &mut Ctx) -> R {
    let mut h = pg::Hist::new();
    let m = pg::Mix { add: 8, remove: 4, link: 9, unlink: 2, resize: 4, swap: 1, cnodes: 1, cports: 1, misc: 1, insert: 1 };
    let n = if c.exhaustive { 3 } else { 3 + c.below(16) };
    for _ in 0..n {
        let big = c.chance(9);
        h.step(c, &m, big, true)?;
    }
    c.n(h.cl);
    Ok(())
}
pub fn queries_multi(c: &mut Ctx) -> R {
    let mut h = mpg::Hist::new();
    let m = mpg::Mix { add: 5, remove: 2, link: 12, unlink: 2, usub: 2, lsub: 1, resize: 3, swap: 1, cnodes: 1, cports: 1, misc: 1 };
    for _ in 0..3 + c.below(16) {
        h.step(c, &m, true)?;
    }
    c.n(h.cl);
    Ok(())
}

// ---------------------------------------------------------------- indices

fn same_idx<A: PartialOrd + std::fmt::Debug>(a: A, b: A, x: usize, y: usize) -> R {
    ensure!((a == b) == (x == y), "{a:?} == {b:?} although the numbers are {x}, {y}");
    ensure!(a.partial_cmp(&b) == x.partial_cmp(&y), "order of {a:?}, {b:?}");
    Ok(())
}

/// All contract clauses on the numbers `x`, `y` at width `U`.
fn width<U>(x: usize, y: usize, name: &str, cl: &mut u64) -> R
where
    U: Unsigned + serde::Serialize + serde::de::DeserializeOwned + std::hash::Hash,
{
    let max = NodeIndex::<U>::max_index();
    ensure!(PortIndex::<U>::max_index() == max && PortOffset::<U>::max_offset() == max, "{name}: maxima differ");
    let bits = std::mem::size_of::<U>() as u32 * 8;
    ensure!(max == (usize::MAX >> (64 - bits + 1)) - 1, "{name}: maximum is {max}");
    macro_rules! idx {
        ($i:ident, $m:ident) => {{
            let t = $i::<U>::try_from(x);
            let n = no_panic(|| $i::<U>::new(x));
            *cl += 2;
            ensure!(t.is_ok() == (x <= max), "{name}: try_from({x}) = {t:?}, the maximum is {max}");
            ensure!(n.is_ok() == (x <= max), "{name}: new({x}) = {n:?}, the maximum is {max}");
            let none = $m::<U>::new(None);
            ensure!(
                none.is_none() && !none.is_some() && none.to_option().is_none() && none == $m::default() && none == None.into() && none.into_iter().count() == 0,
                "{name}: the empty value is not empty"
            );
            ensure!(no_panic(|| none.unwrap()).is_err() && no_panic(|| none.expect("m")).is_err(), "{name}: unwrap of the empty value");
            let mut nm = none;
            ensure!(nm.as_mut().is_none(), "{name}: as_mut of the empty value");
            let s = serde_json::to_string(&none).map_err(|e| e.to_string())?;
            ensure!(serde_json::from_str::<$m<U>>(&s).ok() == Some(none), "{name}: empty value through serde {s}");
            if let Ok(i) = n {
                *cl += 12;
                ensure!(t == Ok(i), "{name}: try_from({x}) differs from new({x})");
                ensure!(i.index() == x && usize::from(i) == x, "{name}: new({x}) reads back as {}", i.index());
                let s = serde_json::to_string(&i).map_err(|e| e.to_string())?;
                ensure!(s == x.to_string() && serde_json::from_str::<$i<U>>(&s).ok() == Some(i), "{name}: {x} through serde as {s}");
                let m = $m::<U>::new(Some(i));
                ensure!(m == i.into() && m == Some(i).into(), "{name}: conversions to the optional form of {x}");
                ensure!(m != none && m.is_some() && !m.is_none(), "{name}: {x} in optional form is empty");
                ensure!(m.to_option() == Some(i) && Option::from(m) == Some(i) && m.unwrap() == i && m.expect("m") == i, "{name}: optional form of {x}");
                ensure!(m.into_iter().eq([i]), "{name}: optional form of {x} as an iterator");
                let s = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                ensure!(serde_json::from_str::<$m<U>>(&s).ok() == Some(m), "{name}: optional {x} through serde as {s}");
                let mut a = m;
                ensure!(a.take() == m && a == none, "{name}: take of {x}");
                ensure!(a.replace(i) == none && a == m, "{name}: replace into the empty value");
                if let Ok(j) = $i::<U>::try_from(y) {
                    same_idx(i, j, x, y)?;
                    ensure!((m == $m::from(j)) == (x == y), "{name}: equality of optional {x}, {y}");
                    let mut a = m;
                    ensure!(a.replace(j) == m && a == j.into(), "{name}: replace {x} by {y}");
                    let mut a = m;
                    *a.as_mut().ok_or("as_mut of a present value")? = j;
                    ensure!(a.to_option() == Some(j), "{name}: write through as_mut");
                }
            }
        }};
    }
    idx!(NodeIndex, MaybeNodeIndex);
    idx!(PortIndex, MaybePortIndex);
    for d in Direction::BOTH {
        let n = no_panic(|| PortOffset::<U>::new(d, x));
        let n2 = no_panic(|| if d == Direction::Incoming { PortOffset::<U>::new_incoming(x) } else { PortOffset::<U>::new_outgoing(x) });
        ensure!(n.is_ok() == (x <= max) && n2 == n, "{name}: PortOffset::new({d:?},{x}) = {n:?}, the maximum is {max}");
        *cl += 2;
        if let Ok(o) = n {
            *cl += 5;
            ensure!(o.direction() == d && o.index() == x, "{name}: offset {d:?} {x} reads back as {:?} {}", o.direction(), o.index());
            let p = o.opposite();
            ensure!(p.direction() == d.reverse() && p.index() == x && p != o && p.opposite() == o, "{name}: opposite of {d:?} {x}");
            let s = serde_json::to_string(&o).map_err(|e| e.to_string())?;
            ensure!(serde_json::from_str::<PortOffset<U>>(&s).ok() == Some(o), "{name}: offset through serde as {s}");
            if y <= max {
                for e in Direction::BOTH {
                    let q = PortOffset::<U>::new(e, y);
                    ensure!((q == o) == (e == d && x == y), "{name}: {o:?} == {q:?}");
                    ensure!(o.cmp(&q) == (d, x).cmp(&(e, y)), "{name}: order of {o:?} and {q:?}");
                }
            }
        }
    }
    Ok(())
}

fn directions(x: usize) -> R {
    let d = Direction::try_from(x);
    ensure!(d.is_ok() == (x < 2), "Direction::try_from({x}) = {d:?}");
    if let Ok(d) = d {
        ensure!(usize::from(d) == x && d == Direction::BOTH[x], "direction {x}");
        ensure!(d.reverse() != d && d.reverse().reverse() == d, "reverse of {d:?}");
        let p: ::petgraph::Direction = d.into();
        ensure!(Direction::from(p) == d && (p == ::petgraph::Direction::Outgoing) == (d == Direction::Outgoing), "petgraph direction {d:?}");
        let s = serde_json::to_string(&d).map_err(|e| e.to_string())?;
        ensure!(serde_json::from_str::<Direction>(&s).ok() == Some(d), "direction through serde");
    }
    Ok(())
}

/// Numbers near the limits of every width, and random ones.
pub fn indices(c: &mut Ctx) -> R {
    let mut cl = 0;
    let mut num = |c: &mut Ctx| {
        let k = c.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64]);
        match c.below(4) {
            0 => c.below(6),
            1 => (((1u128 << k) as usize).wrapping_sub(3)).wrapping_add(c.below(7)),
            2 => c.below(70000),
            _ => (c.below(1 << 30) << 32 | c.below(1 << 30)) >> c.below(60),
        }
    };
    let (x, y) = (num(c), num(c));
    c.t(|| format!("numbers {x}, {y}"));
    width::<u8>(x, y, "u8", &mut cl)?;
    width::<u16>(x, y, "u16", &mut cl)?;
    width::<u32>(x, y, "u32", &mut cl)?;
    width::<u64>(x, y, "u64", &mut cl)?;
    width::<usize>(x, y, "usize", &mut cl)?;
    directions(x)?;
    c.n(cl);
    Ok(())
}
/// Every pair of numbers around the u8 range.
pub fn indices_u8(c: &mut Ctx) -> R {
    let mut cl = 0;
    let x = c.below(260);
    c.t(|| format!("number {x}"));
    for y in 0..260 {
        width::<u8>(x, y, "u8", &mut cl)?;
    }
    directions(x)?;
    c.n(cl);
    Ok(())
}

// ---------------------------------------------------------------- serde

fn trip<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> Result<T, String> {
    let v = serde_json::to_vec(x).map_err(|e| format!("serialising: {e}"))?;
    let s: serde_json::Value = serde_json::from_slice(&v).map_err(|e| e.to_string())?;
    let t: T = serde_json::from_slice(&v).map_err(|e| format!("deserialising: {e}"))?;
    let w = serde_json::to_value(&t).map_err(|e| e.to_string())?;
    ensure!(w == s, "the restored value serialises differently");
    Ok(t)
}

pub fn serde_pg(c: &mut Ctx) -> R {
    let mut h = pg::Hist::new();
    let m = pg::Mix { add: 8, remove: 6, link: 6, unlink: 1, resize: 4, swap: 2, cnodes: 1, cports: 1, misc: 1, insert: 0 };
    for _ in 0..1 + c.below(14) {
        h.step(c, &m, false, false)?;
    }
    c.t(|| "serde round trip".into());
    let g = no_panic(|| trip(&h.g))??;
    ensure!(g == h.g, "the restored graph differs");
    let s = observe(&g, &ObsOpts::FULL, &mut h.cl)?;
    ensure!(s == h.s, "the restored graph differs: {}", pg::diff(&s, &h.s));
    // the same operations give the same results
    let mut other = h.g.clone();
    h.g = g;
    for _ in 0..1 + c.below(8) {
        let (i, o) = (c.below(4), c.below(4));
        let full: Vec<usize> = h.s.nodes.keys().copied().collect();
        match c.below(5) {
            0 | 1 => {
                let a = h.add(c, i, o, true)?;
                let b = other.add_node(i, o).index();
                ensure!(a == b, "add_node on the restored graph gives {a}, on the original {b}");
            }
            2 if !full.is_empty() => {
                let n = c.pick(&full);
                h.resize(c, n, i, o, true)?;
                other.set_num_ports(ni(n), i, o, |_, _| {});
            }
            3 if !full.is_empty() => {
                let n = c.pick(&full);
                c.t(|| format!("remove_node({n})"));
                h.g.remove_node(ni(n));
                other.remove_node(ni(n));
            }
            _ => {
                c.t(|| "compact".into());
                h.g.compact_nodes(|_, _| {});
                h.g.compact_ports(|_, _| {});
                other.compact_nodes(|_, _| {});
                other.compact_ports(|_, _| {});
            }
        }
        ensure!(h.g == other, "the restored graph behaves differently");
        h.s = observe(&h.g, &ObsOpts::FULL, &mut h.cl)?;
        let t = observe(&other, &ObsOpts::LIGHT, &mut h.cl)?;
        ensure!(h.s == t, "the restored graph behaves differently: {}", pg::diff(&h.s, &t));
    }
    c.n(h.cl);
    Ok(())
}

pub fn serde_mpg(c: &mut Ctx) -> R {
    let mut h = mpg::Hist::new();
    let m = mpg::Mix { add: 5, remove: 3, link: 12, unlink: 2, usub: 2, lsub: 1, resize: 3, swap: 1, cnodes: 1, cports: 1, misc: 1 };
    for _ in 0..1 + c.below(14) {
        h.step(c, &m, false)?;
    }
    c.t(|| "serde round trip".into());
    let g = no_panic(|| trip(&h.g))??;
    ensure!(g == h.g, "the restored multigraph differs");
    let s = observe(&g, &ObsOpts::FULL, &mut h.cl)?;
    ensure!(s == h.s, "the restored multigraph differs: {}", pg::diff(&s, &h.s));
    h.g = g;
    for _ in 0..1 + c.below(8) {
        h.step(c, &m, true)?;
    }
    c.n(h.cl);
    Ok(())
}

pub fn serde_hier(c: &mut Ctx) -> R {
    let w = [12, 2, 1, 1, 3, 3, 1, 1];
    let n = 1 + c.below(8);
    let cap = c.flip();
    let mut h = hier::Hist::new(n, cap);
    for _ in 0..1 + c.below(14) {
        h.step(c, &w)?;
    }
    c.t(|| "serde round trip".into());
    let t: Hierarchy = no_panic(|| trip(&h.h))??;
    ensure!(t == h.h, "the restored hierarchy differs");
    h.h = t;
    h.check()?;
    for _ in 0..1 + c.below(8) {
        h.step(c, &w)?;
    }
    // Maps and weights.
    let mut wt: Weights<i32, String> = Weights::new();
    let mut dm: UnmanagedDenseMap<NodeIndex, MaybeNodeIndex<u32>> = UnmanagedDenseMap::with_default(ni(3).into());
    let (mut a, mut b, mut d) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    for _ in 0..c.below(8) {
        let (k, v) = (c.below(9), c.below(4));
        match c.below(3) {
            0 => {
                wt[ni(k)] = v as i32;
                a.insert(k, v as i32);
            }
            1 => {
                wt[pi(k)] = "x".repeat(v);
                b.insert(k, "x".repeat(v));
            }
            _ => {
                let m: MaybeNodeIndex<u32> = if v == 0 { MaybeNodeIndex::default() } else { ni(v).into() };
                dm[ni(k)] = m;
                d.insert(k, m);
            }
        }
    }
    c.t(|| format!("weights {a:?} {b:?} {d:?}"));
    let wt = no_panic(|| trip(&wt))??;
    let dm = no_panic(|| trip(&dm))??;
    for k in 0..12 {
        ensure!(wt[ni(k)] == a.get(&k).copied().unwrap_or(0), "restored node weight {k}");
        ensure!(wt[pi(k)] == b.get(&k).cloned().unwrap_or_default(), "restored port weight {k}");
        ensure!(dm[ni(k)] == d.get(&k).copied().unwrap_or(ni(3).into()), "restored map at {k}");
    }
    h.cl += 36;
    c.n(h.cl);
    Ok(())
}

// ---------------------------------------------------------------- petgraph

mod pet {
    use super::*;
    use ::petgraph::visit::*;

    /// The clauses of the adaptor for a view `$g` with snapshot `$s`.
    macro_rules! adaptor {
        ($g:expr, $s:expr, $what:expr, $cl:expr) => {{
            let g = $g;
            let s: &Snap = $s;
            let what = $what;
            let nodes: Vec<usize> = s.nodes.keys().copied().collect();
            let sorted = |mut v: Vec<usize>| {
                v.sort();
                v
            };
            ensure!(NodeCount::node_count(g) == nodes.len(), "{what}: node_count");
            ensure!(sorted(g.node_identifiers().map(|n| n.index()).collect()) == nodes, "{what}: node_identifiers");
            ensure!(sorted(g.node_references().map(|n| NodeRef::id(&n).index()).collect()) == nodes, "{what}: node_references");
            let bound = g.node_bound();
            for n in &nodes {
                let i = NodeIndexable::to_index(g, ni(*n));
                ensure!(i < bound, "{what}: node {n} has index {i}, not below node_bound {bound}");
                ensure!(NodeIndexable::from_index(g, i) == ni(*n), "{what}: from_index(to_index({n}))");
            }
            // edges, with multiplicity, as (source, target, out endpoint, in endpoint)
            let mut want: Vec<(usize, usize, Sub, Sub)> = vec![];
            for (p, ls) in &s.links {
                if s.ports[p].1 {
                    for (a, b) in ls {
                        want.push((s.ports[&a.0].0, s.ports[&b.0].0, *a, *b));
                    }
                }
            }
            want.sort();
            let mut it = g.edge_references();
            let mut got = vec![];
            ensure!(EdgeCount::edge_count(g) == want.len(), "{what}: edge_count {} but {} links", EdgeCount::edge_count(g), want.len());
            loop {
                let h = it.size_hint();
                let Some(e) = it.next() else { break };
                got.push((EdgeRef::source(&e).index(), EdgeRef::target(&e).index(), e.id().0.key(), e.id().1.key()));
                if let Some(left) = (want.len() + 1).checked_sub(got.len()) {
                    ensure!(h.0 <= left && h.1.map_or(true, |x| x >= left), "{what}: edge_references size_hint {h:?} with {left} left");
                }
            }
            ensure!(it.next().is_none(), "{what}: edge_references resumes after its end");
            got.sort();
            ensure!(got == want, "{what}: edge_references {got:?}, expected {want:?}");
            ensure!(g.edge_references().count() == want.len(), "{what}: edge_references().count()");
            for n in &nodes {
                for (d, out) in [(::petgraph::Direction::Outgoing, true), (::petgraph::Direction::Incoming, false)] {
                    let w: Vec<_> = want.iter().filter(|e| (if out { e.0 } else { e.1 }) == *n).copied().collect();
                    let mut e: Vec<_> = g.edges_directed(ni(*n), d).map(|e| (EdgeRef::source(&e).index(), EdgeRef::target(&e).index(), e.id().0.key(), e.id().1.key())).collect();
                    e.sort();
                    ensure!(e == w, "{what}: edges_directed({n},{d:?}) = {e:?}, expected {w:?}");
                    ensure!(g.edges_directed(ni(*n), d).count() == w.len(), "{what}: edges_directed({n},{d:?}).count()");
                    let nb = sorted(g.neighbors_directed(ni(*n), d).map(|m| m.index()).collect());
                    let wn = sorted(w.iter().map(|e| if out { e.1 } else { e.0 }).collect());
                    ensure!(nb == wn, "{what}: neighbors_directed({n},{d:?}) = {nb:?}, expected {wn:?}");
                    if out {
                        let nb = sorted(g.neighbors(ni(*n)).map(|m| m.index()).collect());
                        ensure!(nb == wn, "{what}: neighbors({n}) = {nb:?}, expected {wn:?}");
                        let mut e: Vec<_> = g.edges(ni(*n)).map(|e| (EdgeRef::source(&e).index(), EdgeRef::target(&e).index(), e.id().0.key(), e.id().1.key())).collect();
                        e.sort();
                        ensure!(e == w, "{what}: edges({n}) = {e:?}, expected {w:?}");
                    }
                }
            }
            let m = no_panic(|| GetAdjacencyMatrix::adjacency_matrix(&g)).map_err(|e| format!("{what}: adjacency_matrix {e}"))?;
            for a in &nodes {
                for b in &nodes {
                    let r = no_panic(|| GetAdjacencyMatrix::is_adjacent(&g, &m, ni(*a), ni(*b))).map_err(|e| format!("{what}: is_adjacent({a},{b}) {e}"))?;
                    ensure!(r == s.succ(*a, true).contains(b), "{what}: is_adjacent({a},{b}) = {r}");
                }
            }
            // visit maps
            let mut v = Visitable::visit_map(&g);
            for round in 0..2 {
                for n in &nodes {
                    ensure!(!v.is_visited(&ni(*n)), "{what}: node {n} visited at the start");
                    ensure!(v.visit(ni(*n)), "{what}: first visit({n}) is false");
                    ensure!(v.is_visited(&ni(*n)), "{what}: node {n} not visited after visit");
                    ensure!(!v.visit(ni(*n)), "{what}: second visit({n}) is true");
                }
                if let Some(n) = nodes.first() {
                    ensure!(v.unvisit(ni(*n)), "{what}: unvisit({n}) of a visited node");
                    ensure!(!v.is_visited(&ni(*n)) && !v.unvisit(ni(*n)), "{what}: node {n} after unvisit");
                    for m in &nodes[1..] {
                        ensure!(v.is_visited(&ni(*m)), "{what}: unvisit({n}) affects {m}");
                    }
                }
                if round == 0 {
                    Visitable::reset_map(&g, &mut v);
                }
            }
            // petgraph algorithms see the same graph
            for a in &nodes {
                let mut seen = BTreeSet::new();
                let mut d = Dfs::new(g, ni(*a));
                while let Some(n) = d.next(g) {
                    ensure!(seen.insert(n.index()), "{what}: Dfs yields {n:?} twice");
                }
                let mut todo = vec![*a];
                let mut reach: BTreeSet<usize> = [*a].into();
                while let Some(x) = todo.pop() {
                    for y in s.succ(x, true) {
                        if reach.insert(y) {
                            todo.push(y);
                        }
                    }
                }
                ensure!(seen == reach, "{what}: Dfs from {a} visits {seen:?}, reachable are {reach:?}");
            }
            // tarjan uses node_bound-sized storage
            let scc = no_panic(|| ::petgraph::algo::kosaraju_scc(g)).map_err(|e| format!("{what}: kosaraju_scc {e}"))?;
            let mut all: Vec<usize> = scc.iter().flatten().map(|n| n.index()).collect();
            all.sort();
            ensure!(all == nodes, "{what}: kosaraju_scc covers {all:?}");
            let scc2 = no_panic(|| ::petgraph::algo::tarjan_scc(g)).map_err(|e| format!("{what}: tarjan_scc {e}"))?;
            let norm = |v: Vec<Vec<NodeIndex>>| -> BTreeSet<BTreeSet<NodeIndex>> { v.into_iter().map(|x| x.into_iter().collect()).collect() };
            ensure!(norm(scc) == norm(scc2), "{what}: kosaraju_scc and tarjan_scc differ");
            *$cl += 20 + 12 * nodes.len() as u64;
        }};
    }

    type Sets = (BTreeSet<usize>, BTreeSet<usize>);
    fn nf(n: NodeIndex, c: &Sets) -> bool {
        c.0.contains(&n.index())
    }
    fn lf(p: PortIndex, c: &Sets) -> bool {
        !c.1.contains(&p.index())
    }

    macro_rules! on {
        ($name:ident, $t:ty) => {
            pub fn $name(c: &mut Ctx) -> R {
                let mut cl = 0;
                let mut g = <$t>::new();
                let order = build(c, &mut g, &Shape { nodes: 6, ports: 3, acyclic: false, links: 9 });
                let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                adaptor!(&g, &s, "graph", &mut cl);
                let keep: BTreeSet<usize> = subset(c, &order).into_iter().collect();
                c.t(|| format!("kept nodes {keep:?}"));
                let bad: BTreeSet<usize> = s.ports.keys().copied().filter(|_| c.chance(5)).collect();
                let sets = (keep.clone(), bad);
                let v: FilteredGraph<_, NodeFilter<Sets>, LinkFilter<Sets>, Sets> = FilteredGraph::new(&g, nf, lf, sets);
                let t = observe(&v, &ObsOpts::LIGHT, &mut cl)?;
                adaptor!(&v, &t, "FilteredGraph", &mut cl);
                let v = Subgraph::with_nodes(&g, keep.iter().map(|n| ni(*n)));
                let t = observe(&v, &ObsOpts::LIGHT, &mut cl)?;
                adaptor!(&v, &t, "Subgraph", &mut cl);
                let (h, _) = forest(c, &order, false);
                let root = c.pick(&order);
                c.t(|| format!("region root {root}"));
                let v = Region::new(&g, &h, ni(root));
                let t = observe(&v, &ObsOpts::LIGHT, &mut cl)?;
                adaptor!(&v, &t, "Region", &mut cl);
                let v = FlatRegion::new_without_root(&g, &h, ni(root));
                let t = observe(&v, &ObsOpts::LIGHT, &mut cl)?;
                adaptor!(&v, &t, "FlatRegion", &mut cl);
                c.n(cl);
                Ok(())
            }
        };
    }
    on!(plain, PortGraph<u32, u32, u16>);
    on!(multi, MultiPortGraph<u32, u32, u16>);
}
pub use pet::{multi as petgraph_m, plain as petgraph_p};
#[allow(unused)]
type Unused = HashSet<u8>;
