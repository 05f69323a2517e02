//! Executable contracts of the algorithms.
use crate::core::*;
use crate::engine::*;
use crate::gen::*;
use crate::pg::diff;
use ::portgraph::algorithms::*;
use ::portgraph::algorithms::convex::*;
use ::portgraph::view::Subgraph;
use ::portgraph::{Direction, LinkMut, NodeIndex, PortIndex, PortMut};
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Classes of ports joined by links; a port filter constant on them accepts or
/// rejects whole links.
fn classes(s: &Snap) -> Vec<Vec<usize>> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for p in s.ports.keys() {
        if !seen.insert(*p) {
            continue;
        }
        let mut cls = vec![*p];
        let mut i = 0;
        while i < cls.len() {
            for (_, o) in s.port_links(cls[i]) {
                if seen.insert(o.0) {
                    cls.push(o.0);
                }
            }
            i += 1;
        }
        out.push(cls);
    }
    out
}

fn filters(c: &mut Ctx, s: &Snap) -> (BTreeSet<usize>, BTreeSet<usize>) {
    let mut bn = BTreeSet::new();
    let mut bp = BTreeSet::new();
    if c.flip() {
        for n in s.nodes.keys() {
            if c.chance(6) {
                bn.insert(*n);
            }
        }
        for cl in classes(s) {
            if c.chance(6) {
                bp.extend(cl);
            }
        }
    }
    c.t(|| format!("rejected nodes {bn:?}, ports {bp:?}"));
    (bn, bp)
}

fn dir(c: &mut Ctx) -> (Direction, bool) {
    let d = if c.flip() { Direction::Incoming } else { Direction::Outgoing };
    c.t(|| format!("direction {d:?}"));
    (d, d == Direction::Outgoing)
}

/// (target, accepted) of every link of n in the direction
fn edges(s: &Snap, n: usize, out: bool, bp: &BTreeSet<usize>) -> Vec<usize> {
    let nd = &s.nodes[&n];
    let ps = if out { &nd.outs } else { &nd.ins };
    let mut v = vec![];
    for p in ps {
        for (a, b) in s.port_links(*p) {
            if !bp.contains(&a.0) && !bp.contains(&b.0) {
                v.push(s.ports[&b.0].0);
            }
        }
    }
    v
}

fn topo_on<T: PortMut + LinkMut>(c: &mut Ctx, mut g: T) -> R
where
    T::LinkEndpoint: Ep,
{
    let mut cl = 0;
    let acyclic = c.flip();
    let order = build(c, &mut g, &Shape { nodes: 7, ports: 3, acyclic, links: 14 });
    let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
    let (d, out) = dir(c);
    let filtered = c.flip();
    let (bn, bp) = if filtered { filters(c, &s) } else { Default::default() };
    let natural = c.flip();
    let sources: Vec<usize> = if natural {
        order.iter().filter(|n| s.succ(**n, !out).is_empty()).copied().collect()
    } else {
        subset(c, &order)
    };
    c.t(|| format!("sources {sources:?}"));
    let nfil = |n: NodeIndex| !bn.contains(&n.index());
    let pfil = |_: NodeIndex, p: PortIndex| !bp.contains(&p.index());
    let kind = c.below(3);
    let src = sources.iter().map(|n| ni(*n));
    // Nodes given during the traversal (a node without any port can not be added).
    let added = if c.flip() {
        let after = c.below(s.nodes.len() + 1);
        let mut v: Vec<usize> = subset(c, &order);
        v.retain(|n| !s.nodes[n].ins.is_empty() || !s.nodes[n].outs.is_empty());
        c.t(|| format!("after {after} nodes add the sources {v:?}"));
        Some((after, v))
    } else {
        None
    };
    let mut fresh: BTreeSet<usize> = BTreeSet::new();
    macro_rules! run {
        ($m:ty) => {{
            let mut it: TopoSort<_, $m> = if filtered {
                toposort_filtered(&g, src, d, nfil, pfil)
            } else {
                toposort(&g, src, d)
            };
            let mut v = vec![];
            loop {
                if let Some((after, more)) = &added {
                    if fresh.is_empty() && v.len() == *after {
                        it.add_sources(more.iter().map(|n| ni(*n)));
                        fresh.extend(more.iter().filter(|n| !v.contains(*n)));
                    }
                }
                let (lo, hi) = it.size_hint();
                let Some(n) = it.next() else {
                    match &added {
                        // the traversal ended early: add the sources now
                        Some((after, more)) if fresh.is_empty() && v.len() < *after => {
                            it.add_sources(more.iter().map(|n| ni(*n)));
                            fresh.extend(more.iter().filter(|n| !v.contains(*n)));
                            if fresh.is_empty() {
                                break;
                            }
                            continue;
                        }
                        _ => break,
                    }
                };
                ensure!(lo <= s.nodes.len() && hi.map_or(true, |h| h >= 1), "size_hint ({lo},{hi:?}) before another item");
                v.push(n.index());
                ensure!(v.len() <= s.nodes.len(), "the traversal yields more items than there are nodes: {v:?}");
            }
            ensure!(it.next().is_none(), "yields after the end");
            v
        }};
    }
    let got = match kind {
        0 => run!(bitvec::vec::BitVec),
        1 => run!(HashSet<PortIndex>),
        _ => run!(::portgraph::UnmanagedDenseMap<PortIndex, bool>),
    };
    // Oracle: least fixed point.
    let mut want: BTreeSet<usize> = sources.iter().chain(&fresh).filter(|n| !bn.contains(n)).copied().collect();
    let srcset = want.clone();
    loop {
        let more: Vec<usize> = s
            .nodes
            .keys()
            .filter(|n| !want.contains(n) && !bn.contains(n))
            .filter(|n| {
                let pr = edges(&s, **n, !out, &bp);
                !pr.is_empty() && pr.iter().all(|p| want.contains(p))
            })
            .copied()
            .collect();
        if more.is_empty() {
            break;
        }
        want.extend(more);
    }
    let gs: BTreeSet<usize> = got.iter().copied().collect();
    ensure!(gs.len() == got.len(), "a node is yielded twice: {got:?}");
    ensure!(gs == want, "yields {gs:?}, expected {want:?}");
    let pos: BTreeMap<usize, usize> = got.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    for n in &got {
        if srcset.contains(n) {
            continue;
        }
        for p in edges(&s, *n, !out, &bp) {
            ensure!(pos[&p] < pos[n], "{n} is yielded before its predecessor {p}: {got:?}");
        }
    }
    if natural && acyclic && !filtered {
        ensure!(got.len() == s.nodes.len(), "an acyclic graph is traversed only partly");
        c.label("complete");
    }
    c.n(cl + 4);
    Ok(())
}
pub fn topo_p(c: &mut Ctx) -> R {
    topo_on(c, G::new())
}
pub fn topo_m(c: &mut Ctx) -> R {
    topo_on(c, M::new())
}

fn reach(s: &Snap, from: &[usize], out: bool, bn: &BTreeSet<usize>, bp: &BTreeSet<usize>, without: Option<usize>) -> BTreeSet<usize> {
    let mut seen: BTreeSet<usize> = from.iter().filter(|n| Some(**n) != without).copied().collect();
    let mut todo: Vec<usize> = seen.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for m in edges(s, n, out, bp) {
            if !bn.contains(&m) && Some(m) != without && seen.insert(m) {
                todo.push(m);
            }
        }
    }
    seen
}

pub fn post(c: &mut Ctx) -> R {
    let mut cl = 0;
    let mut g = G::new();
    let acyclic = c.chance(3);
    let order = build(c, &mut g, &Shape { nodes: 7, ports: 3, acyclic, links: 14 });
    let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
    let (d, out) = dir(c);
    let filtered = c.flip();
    let (bn, mut bp) = if filtered { filters(c, &s) } else { Default::default() };
    if filtered {
        for p in s.ports.keys() {
            if c.chance(8) {
                bp.insert(*p);
            }
        }
        c.t(|| format!("rejected ports {bp:?}"));
    }
    let sources = subset(c, &order);
    c.t(|| format!("sources {sources:?}"));
    let src = sources.iter().map(|n| ni(*n));
    let it = if filtered {
        postorder_filtered(&g, src, d, |n| !bn.contains(&n.index()), |_, p| !bp.contains(&p.index()))
    } else {
        postorder(&g, src, d)
    };
    let mut got = vec![];
    for n in it {
        got.push(n.index());
        ensure!(got.len() <= s.nodes.len(), "yields more items than nodes: {got:?}");
    }
    let live: Vec<usize> = sources.iter().filter(|n| !bn.contains(n)).copied().collect();
    let want = reach(&s, &live, out, &bn, &bp, None);
    let gs: BTreeSet<usize> = got.iter().copied().collect();
    ensure!(gs.len() == got.len(), "a node is yielded twice: {got:?}");
    ensure!(gs == want, "yields {gs:?}, expected {want:?}");
    let pos: BTreeMap<usize, usize> = got.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    for n in &got {
        for m in edges(&s, *n, out, &bp) {
            if bn.contains(&m) || reach(&s, &[m], out, &bn, &bp, None).contains(n) {
                continue; // rejected, or on a cycle with n
            }
            ensure!(pos[&m] < pos[n], "{n} is yielded before {m}, which is reachable from it: {got:?}");
            cl += 1;
        }
    }
    c.n(cl + 3);
    Ok(())
}

pub fn doms(c: &mut Ctx) -> R {
    let mut cl = 0;
    let mut g = G::new();
    let acyclic = c.chance(3);
    let order = build(c, &mut g, &Shape { nodes: 8, ports: 3, acyclic, links: 16 });
    let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
    let (d, out) = dir(c);
    let entry = c.pick(&order);
    c.t(|| format!("entry {entry}"));
    let filtered = c.flip();
    let (mut bn, mut bp) = if filtered { filters(c, &s) } else { Default::default() };
    bn.remove(&entry);
    if filtered {
        for p in s.ports.keys() {
            if c.chance(8) {
                bp.insert(*p);
            }
        }
        c.t(|| format!("rejected ports {bp:?}"));
    }
    let t: DominatorTree = if filtered {
        dominators_filtered(&g, ni(entry), d, |n| !bn.contains(&n.index()), |_, p| !bp.contains(&p.index()))
    } else {
        dominators(&g, ni(entry), d)
    };
    ensure!(t.root() == ni(entry), "root");
    let r = reach(&s, &[entry], out, &bn, &bp, None);
    // dom(n) = nodes d such that n is not reachable when d is removed
    let mut dom: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for x in &r {
        let w = reach(&s, &[entry], out, &bn, &bp, Some(*x));
        for n in &r {
            if n == x || !w.contains(n) {
                dom.entry(*n).or_default().insert(*x);
            }
        }
    }
    for n in s.nodes.keys() {
        let want = dom.get(n).and_then(|ds| {
            // the strict dominator dominated by all the other ones
            ds.iter().filter(|x| *x != n).max_by_key(|x| dom[x].len()).copied()
        });
        let got = t.immediate_dominator(ni(*n)).map(|x| x.index());
        ensure!(got == want, "immediate_dominator({n}) = {got:?}, expected {want:?}");
        cl += 1;
    }
    c.n(cl);
    Ok(())
}

pub fn lcas(c: &mut Ctx) -> R {
    let mut g = G::new();
    let k = c.range(1, 14);
    let mut nodes = vec![];
    for _ in 0..k {
        nodes.push(g.add_node(0, 0).index());
    }
    if k > 2 && c.chance(3) {
        let n = c.below(k);
        g.remove_node(ni(nodes.remove(n)));
    }
    let deep = c.flip();
    let (h, f) = forest(c, &nodes, deep);
    let l = lca(&g, &h);
    let anc = |mut n: usize| {
        let mut v = vec![n];
        while let Some(p) = f.parent.get(&n) {
            v.push(*p);
            n = *p;
        }
        v
    };
    for a in &nodes {
        let aa = anc(*a);
        ensure!(l.root(ni(*a)).index() == *aa.last().unwrap(), "root({a}) = {:?}", l.root(ni(*a)));
        for b in &nodes {
            let bb = anc(*b);
            ensure!(l.is_ancestor(ni(*a), ni(*b)) == bb.contains(a), "is_ancestor({a},{b})");
            let want = aa.iter().find(|x| bb.contains(x)).copied();
            let got = l.lca(ni(*a), ni(*b)).map(|x| x.index());
            ensure!(got == want, "lca({a},{b}) = {got:?}, expected {want:?}");
            c.n(2);
        }
    }
    Ok(())
}

/// Does some directed path leave the set and come back?
fn leaves_and_returns(s: &Snap, set: &BTreeSet<usize>) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<usize> = set.iter().flat_map(|n| s.succ(*n, true)).filter(|m| !set.contains(m)).collect();
    while let Some(n) = todo.pop() {
        if set.contains(&n) {
            return true;
        }
        if seen.insert(n) {
            todo.extend(s.succ(n, true));
        }
    }
    false
}

struct Query {
    set: Vec<usize>,
    ins: Vec<usize>,
    outs: Vec<usize>,
    nodes_convex: bool,
    convex: bool,
}

fn query(c: &mut Ctx, s: &Snap, nodes: &[usize]) -> Query {
    let set = subset(c, nodes);
    let keep: BTreeSet<usize> = set.iter().copied().collect();
    let mut ins = vec![];
    let mut outs = vec![];
    let with = c.flip();
    let mut cut_inner = false;
    if with {
        let mut chosen: BTreeSet<usize> = BTreeSet::new();
        for cls in classes(s) {
            let inner = cls.iter().all(|p| keep.contains(&s.ports[p].0));
            let cross = !inner && cls.iter().any(|p| keep.contains(&s.ports[p].0));
            if cross || (inner && c.chance(5)) {
                cut_inner |= inner && cls.len() > 1;
                chosen.extend(cls.iter().filter(|p| keep.contains(&s.ports[p].0)));
            }
        }
        // a class crossing the boundary may contain inner links as well
        for p in &chosen {
            for (_, b) in s.port_links(*p) {
                if chosen.contains(&b.0) {
                    cut_inner = true;
                }
            }
            if s.ports[p].1 { outs.push(*p) } else { ins.push(*p) }
        }
    }
    let nodes_convex = !leaves_and_returns(s, &keep);
    c.t(|| format!("query nodes {set:?}, inputs {ins:?}, outputs {outs:?}"));
    Query { set, ins, outs, nodes_convex, convex: nodes_convex && !cut_inner }
}

fn ask(ch: &impl ConvexChecker, q: &Query) -> bool {
    ch.is_convex(q.set.iter().map(|n| ni(*n)), q.ins.iter().map(|p| pi(*p)), q.outs.iter().map(|p| pi(*p)))
}

fn convex_on<T: PortMut + LinkMut + Clone>(c: &mut Ctx, mut g: T) -> R
where
    T::LinkEndpoint: Ep,
{
    let mut cl = 0;
    let order = build(c, &mut g, &Shape { nodes: 8, ports: 3, acyclic: true, links: 16 });
    let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
    let topo = TopoConvexChecker::new(&g);
    let line = LineConvexChecker::new(&g);
    for _ in 0..c.range(1, 4) {
        let q = query(c, &s, &order);
        let nodes = || q.set.iter().map(|n| ni(*n));
        let a = topo.is_node_convex(nodes());
        ensure!(a == q.nodes_convex, "TopoConvexChecker::is_node_convex({:?}) = {a}", q.set);
        let b = line.is_node_convex(nodes());
        ensure!(b == q.nodes_convex, "LineConvexChecker::is_node_convex({:?}) = {b}", q.set);
        let a = ask(&topo, &q);
        ensure!(a == q.convex, "TopoConvexChecker::is_convex = {a}");
        let b = ask(&line, &q);
        ensure!(b == q.convex, "LineConvexChecker::is_convex = {b}");
        let sub = Subgraph::with_nodes(&g, nodes());
        let keep: BTreeSet<usize> = q.set.iter().copied().collect();
        let mixed = s.ports.iter().any(|(p, x)| {
            keep.contains(&x.0)
                && s.port_links(*p).iter().any(|l| keep.contains(&s.ports[&l.1 .0].0))
                && s.port_links(*p).iter().any(|l| !keep.contains(&s.ports[&l.1 .0].0))
        });
        if !mixed {
            ensure!(sub.is_convex() == q.nodes_convex, "Subgraph::is_convex");
            ensure!(sub.is_convex_with_checker(&line) == q.nodes_convex, "Subgraph::is_convex_with_checker");
        }
        cl += 6;
        // line intervals
        match line.get_intervals_from_nodes(nodes()) {
            None => ensure!(!q.nodes_convex, "a convex set has no line intervals"),
            Some(iv) => {
                let back: Vec<usize> = line.nodes_in_intervals(&iv).map(|n| n.index()).collect();
                let bs: BTreeSet<usize> = back.iter().copied().collect();
                ensure!(bs == keep && bs.len() == back.len(), "nodes_in_intervals {back:?}");
                ensure!(iv.is_empty() == keep.is_empty(), "is_empty of the intervals");
                if !iv.is_empty() {
                    ensure!(line.is_convex_by_intervals(&iv) == q.nodes_convex, "is_convex_by_intervals");
                }
                // extension by one node
                let n = c.pick(&order);
                c.t(|| format!("try_extend_intervals by {n}"));
                let mut ext = iv.clone();
                let ok = line.try_extend_intervals(&mut ext, ni(n));
                let mut more: Vec<usize> = q.set.clone();
                if !keep.contains(&n) {
                    more.push(n);
                }
                let want = line.get_intervals_from_nodes(more.iter().map(|n| ni(*n)));
                ensure!(ok == want.is_some(), "try_extend_intervals by {n} = {ok}");
                let as_map = |i: &LineIntervals| i.iter().map(|(l, v)| (l, v)).collect::<BTreeMap<_, _>>();
                match want {
                    Some(w) => ensure!(as_map(&ext) == as_map(&w), "try_extend_intervals gives {ext:?}, expected {w:?}"),
                    None => ensure!(ext == iv, "a refused extension changes the intervals"),
                }
                cl += 5;
            }
        }
    }
    // every line runs along links, every link lies on exactly one line
    let mut on_lines: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut by_line: BTreeMap<LineIndex, Vec<(Position, usize)>> = BTreeMap::new();
    for n in &order {
        let ls = line.get_lines(ni(*n));
        ensure!(ls.iter().collect::<BTreeSet<_>>().len() == ls.len() && !ls.is_empty(), "lines of {n}");
        for l in ls {
            by_line.entry(*l).or_default().push((line.get_position(ni(*n)), *n));
        }
    }
    for (l, mut v) in by_line {
        v.sort();
        for w in v.windows(2) {
            ensure!(w[0].0 < w[1].0, "two nodes of line {l:?} have the same position");
            *on_lines.entry((w[0].1, w[1].1)).or_default() += 1;
        }
    }
    let mut links: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (a, b) in s.directed() {
        *links.entry((s.ports[&a].0, s.ports[&b].0)).or_default() += 1;
    }
    ensure!(on_lines == links, "the lines cover {on_lines:?}, the links are {links:?}");
    for (p, x) in &s.ports {
        let lp = line.lines_at_port(pi(*p));
        ensure!(lp.len() == s.port_links(*p).len(), "lines_at_port({p})");
        for l in lp {
            ensure!(line.get_lines(ni(x.0)).contains(l), "lines_at_port({p}) is not a line of its node");
        }
        cl += 1;
    }
    c.n(cl);
    Ok(())
}
pub fn convex_p(c: &mut Ctx) -> R {
    convex_on(c, G::new())
}
pub fn convex_m(c: &mut Ctx) -> R {
    convex_on(c, M::new())
}

/// The dynamic checker wrapping a graph.
fn dyn_check_on<T: PortMut + LinkMut>(c: &mut Ctx, mut g0: T) -> R
where
    T::LinkEndpoint: Ep,
{
    let mut cl = 0;
    if c.flip() {
        build(c, &mut g0, &Shape { nodes: 5, ports: 3, acyclic: true, links: 8 });
    }
    let mut g = DynamicTopoConvexChecker::new(g0);
    let mut s = observe(&g, &ObsOpts::FULL, &mut cl)?;
    for _ in 0..c.range(1, 14) {
        let nodes: Vec<usize> = s.nodes.keys().copied().collect();
        match c.weighted(&[4, 10, 2, 2, 1, 1, 1, 1, 10]) {
            0 => {
                if nodes.len() < 8 {
                    let n = g.add_node(c.below(4), c.below(4));
                    c.t(|| format!("add_node = {n:?}"));
                }
            }
            1 => {
                let outs: Vec<usize> = s.ports.iter().filter(|x| x.1 .1).map(|x| *x.0).collect();
                let ins: Vec<usize> = s.ports.iter().filter(|x| !x.1 .1).map(|x| *x.0).collect();
                if outs.is_empty() || ins.is_empty() {
                    continue;
                }
                let (a, b) = (c.pick(&outs), c.pick(&ins));
                let (x, y) = (s.ports[&a].0, s.ports[&b].0);
                let cyc = reach(&s, &[y], true, &Default::default(), &Default::default(), None).contains(&x);
                let (p, q) = if c.flip() { (a, b) } else { (b, a) };
                c.t(|| format!("link_ports({p},{q}) (nodes {x} -> {y}), closes a cycle: {cyc}"));
                let multi = std::any::type_name::<T>().contains("Multi");
                let busy = !multi && (s.links.contains_key(&a) || s.links.contains_key(&b));
                let r = no_panic(|| g.link_ports(pi(p), pi(q)));
                match r {
                    Ok(Ok(_)) => {
                        ensure!(!cyc && !busy, "a link that closes a cycle is accepted");
                        let t = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                        let mut want = s.directed();
                        want.push((a, b));
                        want.sort();
                        ensure!(t.directed() == want, "links {:?}, expected {want:?}", t.directed());
                    }
                    other => {
                        ensure!(cyc || busy, "a link that closes no cycle is refused: {:?}", other.err());
                        let t = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
                        ensure!(t == s, "a refused link changes the graph: {}", diff(&t, &s));
                        c.label("refused");
                    }
                }
            }
            2 => {
                let n = if c.chance(4) { if std::any::type_name::<T>().contains("Multi") { 40 } else { c.below(12) } } else { *nodes.get(c.below(nodes.len().max(1))).unwrap_or(&0) };
                c.t(|| format!("remove_node({n})"));
                g.remove_node(ni(n));
            }
            3 => {
                let linked: Vec<usize> = s.links.keys().copied().collect();
                if linked.is_empty() {
                    continue;
                }
                let p = c.pick(&linked);
                c.t(|| format!("unlink_port({p})"));
                g.unlink_port(pi(p));
            }
            4 => {
                let (a, b) = (c.below(8), c.below(8));
                if nodes.contains(&a) && nodes.contains(&b) {
                    c.t(|| format!("swap_nodes({a},{b})"));
                    g.swap_nodes(ni(a), ni(b));
                }
            }
            5 => {
                c.t(|| "compact_nodes".into());
                g.compact_nodes(|_, _| {});
            }
            6 => {
                if c.chance(3) {
                    c.t(|| "clear".into());
                    g.clear();
                } else {
                    c.t(|| "compact_ports".into());
                    g.compact_ports(|_, _| {});
                }
            }
            7 => {
                if nodes.is_empty() {
                    continue;
                }
                let n = c.pick(&nodes);
                let (i, o) = (c.below(4), c.below(4));
                c.t(|| format!("set_num_ports({n},{i},{o})"));
                g.set_num_ports(ni(n), i, o, |_, _| {});
            }
            _ => {
                let q = query(c, &s, &nodes);
                let a = ask(&g, &q);
                ensure!(a == q.convex, "DynamicTopoConvexChecker::is_convex = {a}");
                c.label(if a { "convex" } else { "not convex" });
                cl += 1;
            }
        }
        s = observe(&g, &ObsOpts::FULL, &mut cl)?;
    }
    c.n(cl);
    Ok(())
}
pub fn dyn_check_p(c: &mut Ctx) -> R {
    dyn_check_on(c, G::new())
}
pub fn dyn_check_m(c: &mut Ctx) -> R {
    dyn_check_on(c, M::new())
}
