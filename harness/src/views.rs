//! Executable contracts of the graph views.
use crate::core::*;
use crate::engine::*;
use crate::gen::*;
use crate::mpg::observe_subports;
use crate::pg::{check_insert, diff};
use ::portgraph::boundary::{Boundary, HasBoundary};
use ::portgraph::view::filter::{LinkFilter, NodeFilter};
use ::portgraph::view::{FilteredGraph, FlatRegion, NodeFiltered, Region, Subgraph};
use ::portgraph::{Direction, LinkMut, LinkView, MultiView, NodeIndex, PortIndex, PortMut, PortView};
use std::collections::{BTreeMap, BTreeSet};

fn shape() -> Shape {
    Shape { nodes: 6, ports: 3, acyclic: false, links: 10 }
}

/// Everything a view shows equals the expected restriction.
fn same<V: LinkView>(v: &V, want: &Snap, what: &str, cl: &mut u64) -> R
where
    V::LinkEndpoint: Ep,
{
    let got = observe(v, &ObsOpts::FULL, cl).map_err(|e| format!("{what}: {e}"))?;
    *cl += 3;
    if &got != want {
        return Err(format!("{what}: {}", diff(&got, want)));
    }
    ensure!(
        v.node_capacity() >= want.nodes.len() && v.port_capacity() >= want.ports.len(),
        "{what}: capacity below the count"
    );
    Ok(())
}
/// Queries about nodes hidden by the view.
fn hidden<V: LinkView>(v: &V, base: &Snap, want: &Snap, what: &str, cl: &mut u64) -> R
where
    V::LinkEndpoint: Ep,
{
    for n in base.nodes.keys() {
        for m in base.nodes.keys() {
            if !want.nodes.contains_key(n) || !want.nodes.contains_key(m) {
                ensure!(!v.connected(ni(*n), ni(*m)), "{what}: connected({n},{m}) although one of them is hidden");
                *cl += 1;
            }
        }
    }
    Ok(())
}



type Sets = (BTreeSet<usize>, BTreeSet<usize>);
fn nf(n: NodeIndex, c: &Sets) -> bool {
    c.0.contains(&n.index())
}
fn lf(p: PortIndex, c: &Sets) -> bool {
    !c.1.contains(&p.index())
}
fn choose(c: &mut Ctx, s: &Snap) -> Sets {
    let nodes: Vec<usize> = s.nodes.keys().copied().collect();
    let ports: Vec<usize> = s.ports.keys().copied().collect();
    let all = c.chance(4);
    let k: BTreeSet<usize> = if all { nodes.iter().copied().collect() } else { subset(c, &nodes).into_iter().collect() };
    let mut bad = BTreeSet::new();
    if c.flip() {
        for p in ports {
            if c.chance(4) {
                bad.insert(p);
            }
        }
    }
    (k, bad)
}

macro_rules! per_base {
    ($name:ident, $t:ty, $multi:expr) => {
        mod $name {
            use super::*;
            pub fn filtered(c: &mut Ctx) -> R {
                let mut cl = 0;
                let mut g = <$t>::new();
                build(c, &mut g, &shape());
                let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                let sets = choose(c, &s);
                c.t(|| format!("accepted nodes {:?}, rejected ports {:?}", sets.0, sets.1));
                let want = restrict(&s, &sets.0, |a, b| !sets.1.contains(&a.0) && !sets.1.contains(&b.0));
                let v: FilteredGraph<_, NodeFilter<Sets>, LinkFilter<Sets>, Sets> = FilteredGraph::new(&g, nf, lf, sets.clone());
                same(&v, &want, "FilteredGraph", &mut cl)?;
                hidden(&v, &s, &want, "FilteredGraph", &mut cl)?;
                ensure!(v.context() == &sets, "context");
                $multi(&v, &want, &mut cl)?;
                // the filter on nodes only
                let wn = restrict(&s, &sets.0, |_, _| true);
                let v2: NodeFiltered<_, NodeFilter<Sets>, Sets> = NodeFiltered::new_node_filtered(&g, nf, sets.clone());
                same(&v2, &wn, "NodeFiltered", &mut cl)?;
                $multi(&v2, &wn, &mut cl)?;
                // a view of a view
                let s2 = choose(c, &s);
                c.t(|| format!("second filter: nodes {:?}, rejected ports {:?}", s2.0, s2.1));
                let keep: BTreeSet<usize> = sets.0.intersection(&s2.0).copied().collect();
                let want2 = restrict(&s, &keep, |a, b| ![a.0, b.0].iter().any(|p| sets.1.contains(p) || s2.1.contains(p)));
                let vv: FilteredGraph<_, NodeFilter<Sets>, LinkFilter<Sets>, Sets> = FilteredGraph::new(&v, nf, lf, s2);
                same(&vv, &want2, "FilteredGraph of a FilteredGraph", &mut cl)?;
                $multi(&vv, &want2, &mut cl)?;
                // references forward
                same(&&g, &s, "&G", &mut cl)?;
                let mut gm = g.clone();
                same(&&mut gm, &s, "&mut G", &mut cl)?;
                let after = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                ensure!(after == s, "the base graph changed");
                c.n(cl);
                Ok(())
            }
            pub fn regions(c: &mut Ctx) -> R {
                let mut cl = 0;
                let mut g = <$t>::new();
                let order = build(c, &mut g, &Shape { nodes: 8, ports: 2, acyclic: false, links: 12 });
                let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                let (h, f) = forest(c, &order, c.exhaustive);
                let root = c.pick(&order);
                c.t(|| format!("region root {root}"));
                let keep_r: BTreeSet<usize> = f.bfs(root).into_iter().collect();
                let region = Region::new(&g, &h, root_(root));
                ensure!(region.region_root() == root_(root), "region_root");
                // queries in an arbitrary order first
                for _ in 0..c.below(6) {
                    let n = c.pick(&order);
                    c.t(|| format!("contains_node({n})"));
                    ensure!(
                        region.contains_node(ni(n)) == keep_r.contains(&n) && region.is_descendant(ni(n)) == keep_r.contains(&n),
                        "Region::contains_node({n}) is wrong"
                    );
                    cl += 1;
                }
                let want = restrict(&s, &keep_r, |_, _| true);
                let copy = region.clone();
                same(&region, &want, "Region", &mut cl)?;
                hidden(&region, &s, &want, "Region", &mut cl)?;
                $multi(&region, &want, &mut cl)?;
                let seq: Vec<usize> = region.nodes_iter().map(|n| n.index()).collect();
                ensure!(seq == f.bfs(root), "Region::nodes_iter order {seq:?}, descendants are {:?}", f.bfs(root));
                for n in &order {
                    ensure!(copy.contains_node(ni(*n)) == keep_r.contains(n), "Region (clone)::contains_node({n}) is wrong");
                }
                same(&copy, &want, "Region (clone)", &mut cl)?;
                for with in [true, false] {
                    let mut keep: BTreeSet<usize> = f.kids(root).iter().copied().collect();
                    if with {
                        keep.insert(root);
                    }
                    let fr = if with { FlatRegion::new_with_root(&g, &h, root_(root)) } else { FlatRegion::new_without_root(&g, &h, root_(root)) };
                    let want = restrict(&s, &keep, |_, _| true);
                    let what = if with { "FlatRegion with root" } else { "FlatRegion without root" };
                    same(&fr, &want, what, &mut cl)?;
                    hidden(&fr, &s, &want, what, &mut cl)?;
                    $multi(&fr, &want, &mut cl)?;
                    ensure!(fr.includes_root() == with && fr.region_root() == root_(root), "{what}: root accessors");
                    let mut seq: Vec<usize> = fr.nodes_iter().map(|n| n.index()).collect();
                    if with {
                        ensure!(seq.remove(0) == root, "{what}: nodes_iter starts with the root");
                    }
                    ensure!(seq == f.kids(root), "{what}: nodes_iter order {seq:?}");
                    // filtered region
                    let sets = choose(c, &s);
                    let k2: BTreeSet<usize> = keep.intersection(&sets.0).copied().collect();
                    let w2 = restrict(&s, &k2, |a, b| !sets.1.contains(&a.0) && !sets.1.contains(&b.0));
                    let v: FilteredGraph<_, NodeFilter<Sets>, LinkFilter<Sets>, Sets> = FilteredGraph::new(&fr, nf, lf, sets);
                    same(&v, &w2, "FilteredGraph of a FlatRegion", &mut cl)?;
                }
                c.n(cl);
                Ok(())
            }
            pub fn subgraphs(c: &mut Ctx) -> R {
                let mut cl = 0;
                let mut g = <$t>::new();
                let order = build(c, &mut g, &shape());
                let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                let set = subset(c, &order);
                c.t(|| format!("with_nodes({set:?})"));
                let keep: BTreeSet<usize> = set.iter().copied().collect();
                let want = restrict(&s, &keep, |_, _| true);
                let sub = Subgraph::with_nodes(&g, set.iter().map(|n| ni(*n)));
                same(&sub, &want, "Subgraph::with_nodes", &mut cl)?;
                hidden(&sub, &s, &want, "Subgraph::with_nodes", &mut cl)?;
                $multi(&sub, &want, &mut cl)?;
                let (ins, outs) = cut(&s, &set, &keep);
                let b = sub.port_boundary();
                boundary_is(&b, &ins, &outs, &mut cl)?;
                // From a boundary: either the cut of the set, or arbitrary ports.
                let (bi, bo) = if c.flip() {
                    (ins.clone(), outs.clone())
                } else {
                    let mut bi = vec![];
                    let mut bo = vec![];
                    for (p, x) in &s.ports {
                        if c.chance(4) {
                            if x.1 { bo.push(*p) } else { bi.push(*p) }
                        }
                    }
                    (bi, bo)
                };
                c.t(|| format!("new_subgraph(inputs {bi:?}, outputs {bo:?})"));
                let bd = if c.flip() {
                    let mut ps: Vec<PortIndex> = vec![];
                    let (mut a, mut z) = (bi.iter(), bo.iter());
                    loop {
                        let (x, y) = if c.flip() { (a.next(), None) } else { (None, z.next()) };
                        if let Some(p) = x.or(y) {
                            ps.push(pi(*p));
                        } else {
                            ps.extend(a.by_ref().chain(z.by_ref()).map(|p| pi(*p)));
                            break;
                        }
                    }
                    Boundary::from_ports(&g, ps)
                } else {
                    Boundary::new(bi.iter().map(|p| pi(*p)), bo.iter().map(|p| pi(*p)))
                };
                boundary_is(&bd, &bi, &bo, &mut cl)?;
                let keep2 = enclosed(&s, &bi, &bo);
                let sub2 = Subgraph::new_subgraph(&g, bd.clone());
                let got: BTreeSet<usize> = sub2.nodes_iter().map(|n| n.index()).collect();
                cl += 1;
                ensure!(got == keep2, "new_subgraph contains {got:?}, the boundary encloses {keep2:?}");
                same(&sub2, &restrict(&s, &keep2, |_, _| true), "Subgraph::new_subgraph", &mut cl)?;
                ensure!(sub2.port_boundary().as_ref() == &bd, "port_boundary of new_subgraph");
                let after = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                ensure!(after == s, "the base graph changed");
                c.n(cl);
                Ok(())
            }
            pub fn copies(c: &mut Ctx) -> R {
                let mut cl = 0;
                let mut g = <$t>::new();
                let order = build(c, &mut g, &shape());
                let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                let mut set = subset(c, &order);
                if c.flip() {
                    // close the set under links, so that there is no boundary
                    loop {
                        let more: Vec<usize> = set.iter().flat_map(|n| s.succ(*n, true).into_iter().chain(s.succ(*n, false))).filter(|m| !set.contains(m)).collect();
                        match more.first() {
                            Some(m) => set.push(*m),
                            None => break,
                        }
                    }
                }
                c.t(|| format!("copy_in_parent of {set:?}"));
                let keep: BTreeSet<usize> = set.iter().copied().collect();
                let crossing: Vec<(usize, usize)> = s
                    .links
                    .values()
                    .flatten()
                    .filter(|(a, b)| keep.contains(&s.ports[&a.0].0) && !keep.contains(&s.ports[&b.0].0))
                    .map(|(a, b)| (a.0, b.0))
                    .collect();
                let mut sub = Subgraph::with_nodes(&mut g, set.iter().map(|n| ni(*n)));
                let r = sub.copy_in_parent();
                drop(sub);
                let post = observe(&g, &ObsOpts::FULL, &mut cl)?;
                cl += 3;
                let multi = $multi(&g, &post, &mut cl)?;
                match r {
                    Err(e) => {
                        ensure!(!multi && !crossing.is_empty(), "copy_in_parent refused: {e:?}");
                        ensure!(post == s, "copy_in_parent failed but changed the graph: {}", diff(&post, &s));
                    }
                    Ok(map) => {
                        ensure!(multi || crossing.is_empty(), "copy_in_parent accepted a boundary on a plain graph");
                        // Remove the crossing copies, then this is an insertion of the restricted graph.
                        let pm: BTreeMap<usize, usize> = keep
                            .iter()
                            .flat_map(|n| {
                                let k = map.get(&ni(*n)).map(|x| x.index());
                                let old: Vec<usize> = s.nodes[n].all().collect();
                                let new: Vec<usize> = k.and_then(|k| post.nodes.get(&k)).map_or(vec![], |d| d.all().collect());
                                old.into_iter().zip(new)
                            })
                            .collect();
                        let mut want: Vec<(usize, usize)> = s.directed();
                        let mut links = post.directed();
                        for (a, b) in restrict(&s, &keep, |_, _| true).directed() {
                            want.push((pm[&a], pm[&b]));
                        }
                        for (a, b) in &crossing {
                            want.push(if s.ports[a].1 { (pm[a], *b) } else { (*b, pm[a]) });
                        }
                        want.sort();
                        links.sort();
                        ensure!(links == want, "copy_in_parent: links {links:?}, expected {want:?}");
                        let mut p2 = post.clone();
                        p2.links.clear();
                        let mut s2 = s.clone();
                        s2.links.clear();
                        let mut o2 = restrict(&s, &keep, |_, _| true);
                        o2.links.clear();
                        check_insert(&s2, &p2, &o2, &map)?;
                    }
                }
                c.n(cl);
                Ok(())
            }
        }
    };
}

fn root_(r: usize) -> NodeIndex {
    ni(r)
}

fn cut(s: &Snap, order: &[usize], keep: &BTreeSet<usize>) -> (Vec<usize>, Vec<usize>) {
    let ext = |p: &&usize| s.port_links(**p).iter().any(|(_, b)| !keep.contains(&s.ports[&b.0].0));
    (
        order.iter().flat_map(|n| s.nodes[n].ins.iter().filter(ext).copied().collect::<Vec<_>>()).collect(),
        order.iter().flat_map(|n| s.nodes[n].outs.iter().filter(ext).copied().collect::<Vec<_>>()).collect(),
    )
}

fn boundary_is(b: &Boundary, ins: &[usize], outs: &[usize], cl: &mut u64) -> R {
    let i: Vec<usize> = b.input_indices().iter().map(|p| p.index()).collect();
    let o: Vec<usize> = b.output_indices().iter().map(|p| p.index()).collect();
    ensure!(i == ins && o == outs, "boundary is {i:?} / {o:?}, expected {ins:?} / {outs:?}");
    ensure!(b.num_ports() == i.len() + o.len(), "num_ports of the boundary");
    let all: Vec<usize> = b.port_indices().map(|p| p.index()).collect();
    ensure!(all == [i.clone(), o.clone()].concat(), "port_indices of the boundary");
    for (d, l) in [(Direction::Incoming, &i), (Direction::Outgoing, &o)] {
        let ps: Vec<_> = b.ports(d).collect();
        ensure!(ps.len() == l.len(), "boundary ports {d:?}");
        let sug: Vec<_> = if d == Direction::Incoming { b.inputs().collect() } else { b.outputs().collect::<Vec<_>>() };
        ensure!(ps == sug, "boundary inputs()/outputs()");
        for (k, bp) in ps.iter().enumerate() {
            ensure!(b.port_index(bp).index() == l[k], "port_index of boundary port {k} {d:?}");
            let first = l.iter().position(|x| *x == l[k]).unwrap();
            ensure!(b.find_port(pi(l[k]), d) == ps[first], "find_port of boundary port {k} {d:?}");
        }
    }
    *cl += 4;
    Ok(())
}

/// Nodes enclosed by a boundary: those reachable from the boundary ports' nodes
/// along links neither of whose ends is a boundary port.
fn enclosed(s: &Snap, bi: &[usize], bo: &[usize]) -> BTreeSet<usize> {
    let b: BTreeSet<usize> = bi.iter().chain(bo).copied().collect();
    if b.is_empty() {
        return s.nodes.keys().copied().collect();
    }
    let mut seen: BTreeSet<usize> = b.iter().map(|p| s.ports[p].0).collect();
    let mut todo: Vec<usize> = seen.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for p in s.nodes[&n].all() {
            for (x, y) in s.port_links(p) {
                if !b.contains(&x.0) && !b.contains(&y.0) && seen.insert(s.ports[&y.0].0) {
                    todo.push(s.ports[&y.0].0);
                }
            }
        }
    }
    seen
}

fn plain<V: LinkView>(_v: &V, _s: &Snap, _cl: &mut u64) -> Result<bool, String> {
    Ok(false)
}
fn multi<V: MultiView>(v: &V, s: &Snap, cl: &mut u64) -> Result<bool, String>
where
    V::LinkEndpoint: Ep,
{
    observe_subports(v, s, cl)?;
    Ok(true)
}

per_base!(p, G, plain);
per_base!(m, M, multi);

pub use m::{copies as m_copies, filtered as m_filtered, regions as m_regions, subgraphs as m_subgraphs};
pub use p::{copies as p_copies, filtered as p_filtered, regions as p_regions, subgraphs as p_subgraphs};

/// Reachability between boundary ports.
fn ordering_of<T: PortMut + LinkMut + Clone>(c: &mut Ctx, mut g: T) -> R
where
    T::LinkEndpoint: Ep,
{
    let mut cl = 0;
    let order = build(c, &mut g, &Shape { nodes: 7, ports: 3, acyclic: true, links: 14 });
    let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
    let mut rel: Vec<(Boundary, BTreeSet<(usize, usize)>, usize, usize)> = vec![];
    let mut ords = vec![];
    for round in 0..2 {
        let set = subset(c, &order);
        let keep: BTreeSet<usize> = set.iter().copied().collect();
        let (mut ins, mut outs) = cut(&s, &set, &keep);
        // a boundary port must not carry inner links as well
        let mixed = |p: &usize| s.port_links(*p).iter().any(|(_, b)| keep.contains(&s.ports[&b.0].0));
        if ins.iter().chain(&outs).any(mixed) {
            return Ok(());
        }
        // free ports may be part of the boundary too
        for n in &set {
            for p in s.nodes[n].all() {
                if s.port_links(p).is_empty() && c.chance(3) {
                    if s.ports[&p].1 { outs.push(p) } else { ins.push(p) }
                }
            }
        }
        c.t(|| format!("part {set:?}, boundary {ins:?} / {outs:?}"));
        let inner = restrict(&s, &keep, |_, _| true);
        let b = Boundary::new(ins.iter().map(|p| pi(*p)), outs.iter().map(|p| pi(*p)));
        let mut want = BTreeSet::new();
        for (i, p) in ins.iter().enumerate() {
            let start = s.ports[p].0;
            let mut seen: BTreeSet<usize> = [start].into();
            let mut todo = vec![start];
            while let Some(n) = todo.pop() {
                for m in inner.succ(n, true) {
                    if seen.insert(m) {
                        todo.push(m);
                    }
                }
            }
            for (k, q) in outs.iter().enumerate() {
                if seen.contains(&s.ports[q].0) {
                    want.insert((i, k));
                }
            }
        }
        let whole = c.chance(3) && round == 0;
        let o = if whole {
            c.t(|| "port_ordering on the whole graph".into());
            b.port_ordering(&g)
        } else {
            b.port_ordering(&Subgraph::with_nodes(&g, set.iter().map(|n| ni(*n))))
        };
        let bi: Vec<_> = b.inputs().collect();
        let bo: Vec<_> = b.outputs().collect();
        for (i, x) in bi.iter().enumerate() {
            for (k, y) in bo.iter().enumerate() {
                let e = want.contains(&(i, k));
                ensure!(
                    o.reachable_ports(*x).contains(y) == e,
                    "port_ordering: input {} reaches output {}: {}, expected {e}",
                    ins[i], outs[k], !e
                );
                ensure!(o.reaching_ports(*y).contains(x) == e, "port_ordering: reaching_ports disagrees");
                cl += 2;
            }
        }
        for x in &bi {
            ensure!(o.reachable_ports(*x).iter().all(|y| bo.contains(y)), "reachable_ports holds a port outside the boundary");
        }
        rel.push((b, want, ins.len(), outs.len()));
        ords.push(o);
    }
    if rel[0].2 == rel[1].2 && rel[0].3 == rel[1].3 {
        c.label("compared");
        ensure!(rel[0].0.is_compatible(&rel[1].0), "is_compatible");
        for (x, y) in [(0, 1), (1, 0), (0, 0)] {
            let miss: BTreeSet<(usize, usize)> = rel[y].1.difference(&rel[x].1).copied().collect();
            ensure!(ords[x].is_stronger_than(&ords[y]) == miss.is_empty(), "is_stronger_than");
            let bi: Vec<_> = rel[x].0.inputs().collect();
            let bo: Vec<_> = rel[x].0.outputs().collect();
            let got: Vec<(usize, usize)> = ords[x]
                .missing_pairs(&ords[y])
                .map(|(a, b)| (bi.iter().position(|z| *z == a).unwrap(), bo.iter().position(|z| *z == b).unwrap()))
                .collect();
            let gs: BTreeSet<_> = got.iter().copied().collect();
            ensure!(gs == miss && gs.len() == got.len(), "missing_pairs {got:?}, expected {miss:?}");
            cl += 2;
        }
    } else {
        ensure!(!rel[0].0.is_compatible(&rel[1].0), "is_compatible");
    }
    c.n(cl);
    Ok(())
}
pub fn p_ordering(c: &mut Ctx) -> R {
    ordering_of(c, G::new())
}
pub fn m_ordering(c: &mut Ctx) -> R {
    ordering_of(c, M::new())
}
