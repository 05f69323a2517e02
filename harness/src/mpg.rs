//! Executable contracts of the `MultiPortGraph` operations over histories.
use crate::core::*;
use crate::engine::*;
use crate::pg::{
    add_node_post, check_insert, check_renumber, check_resize, diff, drop_port_links,
    find_link_error, relabel_nodes, relabel_ports, remove_node_post,
};
use ::portgraph::multiportgraph::SubportIndex;
use ::portgraph::{Direction, LinkMut, MultiMut, MultiPortGraph, MultiView, NodeIndex, PortGraph, PortIndex, PortMut, PortView};
use std::collections::{BTreeMap, BTreeSet};

pub type M = MultiPortGraph<u32, u32, u16>;

pub fn sp(s: Sub) -> SubportIndex {
    SubportIndex::new_multi(pi(s.0), s.1)
}

/// Clauses on subport enumeration; returns all subports.
pub fn observe_subports<G: MultiView>(g: &G, s: &Snap, cl: &mut u64) -> Result<BTreeSet<Sub>, String>
where
    G::LinkEndpoint: Ep,
{
    let mut all = BTreeSet::new();
    for (n, d) in &s.nodes {
        let mut seq = vec![];
        for dir in Direction::BOTH {
            let ps = if dir == Direction::Incoming { &d.ins } else { &d.outs };
            let subs: Vec<G::LinkEndpoint> = g.subports(ni(*n), dir).collect();
            let sug: Vec<Sub> = if dir == Direction::Incoming {
                g.subport_inputs(ni(*n)).map(|x| x.key()).collect()
            } else {
                g.subport_outputs(ni(*n)).map(|x| x.key()).collect::<Vec<_>>()
            };
            let keys: Vec<Sub> = subs.iter().map(|x| x.key()).collect();
            ensure!(keys == sug, "subport_inputs/outputs({n}) = {sug:?}, subports {dir:?} = {keys:?}");
            let mut want_ports = keys.iter().map(|k| k.0).collect::<Vec<_>>();
            want_ports.dedup();
            ensure!(
                want_ports == *ps,
                "subports({n},{dir:?}) = {keys:?}: every port in order has at least one subport"
            );
            for x in &subs {
                let k = x.key();
                ensure!(all.insert(k), "subport {k:?} enumerated twice");
                let want = s.port_links(k.0).iter().find(|l| l.0 == k).map(|l| l.1);
                let got = g.subport_link(*x).map(|y| y.key());
                ensure!(got == want, "subport_link({k:?}) = {got:?}, expected {want:?}");
                *cl += 2;
            }
            seq.extend(keys);
        }
        let a: Vec<Sub> = g.all_subports(ni(*n)).map(|x| x.key()).collect();
        ensure!(a == seq, "all_subports({n}) = {a:?}, expected {seq:?}");
        *cl += 3;
    }
    for ls in s.links.values() {
        for (a, _) in ls {
            ensure!(all.contains(a), "linked endpoint {a:?} is not among the subports");
        }
    }
    Ok(all)
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub add: usize,
    pub remove: usize,
    pub link: usize,
    pub unlink: usize,
    pub usub: usize,
    pub lsub: usize,
    pub resize: usize,
    pub swap: usize,
    pub cnodes: usize,
    pub cports: usize,
    pub misc: usize,
}

pub struct Hist {
    pub g: M,
    pub s: Snap,
    pub subs: BTreeSet<Sub>,
    pub cl: u64,
}

impl Hist {
    pub fn new() -> Self {
        Hist { g: M::new(), s: Snap::default(), subs: BTreeSet::new(), cl: 0 }
    }
    fn obs(&mut self, full: bool) -> Result<(Snap, BTreeSet<Sub>), String> {
        let o = if full { &ObsOpts::FULL } else { &ObsOpts::LIGHT };
        let s = observe(&self.g, o, &mut self.cl)?;
        let subs = observe_subports(&self.g, &s, &mut self.cl)?;
        if full {
            // The flattened graph: every internal node belongs to a public one.
            let pg = self.g.as_portgraph();
            for n in pg.nodes_iter() {
                let m = self.g.pg_main_node(n);
                ensure!(
                    s.nodes.contains_key(&m.index()),
                    "pg_main_node({n:?}) = {m:?} is not a node"
                );
                ensure!(
                    !s.nodes.contains_key(&n.index()) || m == n,
                    "pg_main_node({n:?}) = {m:?} for a public node"
                );
            }
            let max_node = pg.nodes_iter().map(|n| n.index()).max().unwrap_or(0);
            for i in 0..max_node + 3 {
                ensure!(
                    self.g.contains_node(ni(i)) == s.nodes.contains_key(&i),
                    "contains_node({i})"
                );
            }
            ensure!(
                self.g.node_capacity() >= s.nodes.len() && self.g.port_capacity() >= s.ports.len(),
                "capacity below count"
            );
        }
        Ok((s, subs))
    }
    fn expect(&mut self, op: &str, want: Snap, full: bool) -> R {
        let (got, subs) = self.obs(full).map_err(|e| format!("after {op}: {e}"))?;
        self.cl += 3;
        if got != want {
            return Err(format!("after {op}: {}", diff(&got, &want)));
        }
        self.s = got;
        self.subs = subs;
        Ok(())
    }
    fn pick_node(&self, c: &mut Ctx) -> Option<usize> {
        let keys: Vec<usize> = self.s.nodes.keys().copied().collect();
        if keys.is_empty() {
            None
        } else {
            Some(c.pick(&keys))
        }
    }
    fn pick_port(&self, c: &mut Ctx) -> Option<usize> {
        // Few distinct ports so that multi-links are common.
        let keys: Vec<usize> = self.s.ports.keys().copied().collect();
        if keys.is_empty() {
            return None;
        }
        if c.chance(25) {
            return Some(1 << 20);
        }
        let lim = if c.flip() { keys.len() } else { keys.len().min(4) };
        Some(keys[c.below(lim)])
    }

    pub fn add(&mut self, c: &mut Ctx, i: usize, o: usize, full: bool) -> Result<usize, String> {
        let n = no_panic(|| self.g.add_node(i, o)).map_err(|e| format!("add_node({i},{o}) {e}"))?;
        c.t(|| format!("add_node({i},{o}) = {}", n.index()));
        let k = n.index();
        ensure!(!self.s.nodes.contains_key(&k), "add_node returned {k}, the index of a live node");
        let ins: Vec<_> = self.g.inputs(n).map(|p| p.index()).collect();
        let outs: Vec<_> = self.g.outputs(n).map(|p| p.index()).collect();
        ensure!(ins.len() == i && outs.len() == o, "add_node({i},{o}) made {}+{} ports", ins.len(), outs.len());
        for p in ins.iter().chain(outs.iter()) {
            ensure!(!self.s.ports.contains_key(p), "add_node gave the new node live port {p}");
        }
        let want = add_node_post(&self.s, k, ins, outs);
        self.expect("add_node", want, full)?;
        Ok(k)
    }

    pub fn link(&mut self, c: &mut Ctx, a: usize, b: usize, full: bool) -> R {
        c.t(|| format!("link_ports({a},{b})"));
        let errs = find_link_error(&self.s, a, b, false);
        match no_panic(|| self.g.link_ports(pi(a), pi(b))).map_err(|e| format!("link_ports({a},{b}) {e}"))? {
            Err(e) => {
                ensure!(errs.contains(&e), "link_ports({a},{b}) failed with {e:?}; applicable errors: {errs:?}");
                let want = self.s.clone();
                self.expect("failed link_ports", want, full)
            }
            Ok((x, y)) => {
                let (x, y) = (x.key(), y.key());
                ensure!(errs.is_empty(), "link_ports({a},{b}) succeeded although {errs:?}");
                ensure!(x.0 == a && y.0 == b, "link_ports({a},{b}) returned ({x:?},{y:?})");
                for z in [x, y] {
                    ensure!(
                        !self.s.port_links(z.0).iter().any(|l| l.0 == z),
                        "link_ports({a},{b}) used subport {z:?}, which is already linked"
                    );
                }
                let mut want = self.s.clone();
                for (u, v) in [(x, y), (y, x)] {
                    let e = want.links.entry(u.0).or_default();
                    e.push((u, v));
                    e.sort();
                }
                self.expect("link_ports", want, full)
            }
        }
    }

    pub fn step(&mut self, c: &mut Ctx, m: &Mix, full: bool) -> R {
        let w = [
            m.add, m.remove, m.link, m.unlink, m.usub, m.lsub, m.resize, m.swap, m.cnodes, m.cports, m.misc,
        ];
        match c.weighted(&w) {
            0 => {
                let (i, o) = (c.below(4), c.below(4));
                self.add(c, i, o, full)?;
            }
            1 => {
                let Some(n) = self.pick_node(c) else { return Ok(()) };
                let n = if c.chance(10) { 1 << 20 } else { n };
                c.t(|| format!("remove_node({n})"));
                let want = remove_node_post(&self.s, n);
                no_panic(|| self.g.remove_node(ni(n))).map_err(|e| format!("remove_node({n}) {e}"))?;
                self.expect("remove_node", want, full)?;
                c.label("remove_node");
            }
            2 => {
                let (Some(a), Some(b)) = (self.pick_port(c), self.pick_port(c)) else { return Ok(()) };
                // mostly opposite directions
                let mut b = b;
                if !c.chance(8) {
                    if let (Some(x), Some(y)) = (self.s.ports.get(&a), self.s.ports.get(&b)) {
                        if x.1 == y.1 {
                            let opp: Vec<usize> =
                                self.s.ports.iter().filter(|(_, z)| z.1 != x.1).map(|z| *z.0).collect();
                            if !opp.is_empty() {
                                b = opp[c.below(opp.len().min(4))];
                            }
                        }
                    }
                }
                if self.s.port_links(a).len() >= 1 && self.s.port_links(b).len() >= 1 {
                    c.label("multi-link");
                }
                self.link(c, a, b, full)?;
                c.label("link");
            }
            3 => {
                let Some(p) = self.pick_port(c) else { return Ok(()) };
                c.t(|| format!("unlink_port({p})"));
                let r = no_panic(|| self.g.unlink_port(pi(p))).map_err(|e| format!("unlink_port({p}) {e}"))?;
                let old: Vec<Sub> = self.s.port_links(p).iter().map(|l| l.1).collect();
                match r {
                    None => ensure!(old.is_empty(), "unlink_port({p}) returned None, links were {old:?}"),
                    Some(x) => ensure!(
                        old.contains(&x.key()),
                        "unlink_port({p}) returned {:?}, it was linked to {old:?}",
                        x.key()
                    ),
                }
                let mut want = self.s.clone();
                drop_port_links(&mut want, p);
                self.expect("unlink_port", want, full)?;
                c.label("unlink_port");
            }
            4 => {
                let subs: Vec<Sub> = self.subs.iter().copied().collect();
                if subs.is_empty() {
                    return Ok(());
                }
                let x = c.pick(&subs);
                c.t(|| format!("unlink_subport({x:?})"));
                let r = no_panic(|| self.g.unlink_subport(sp(x))).map_err(|e| format!("unlink_subport({x:?}) {e}"))?;
                let want_r = self.s.port_links(x.0).iter().find(|l| l.0 == x).map(|l| l.1);
                ensure!(
                    r.map(|y| y.key()) == want_r,
                    "unlink_subport({x:?}) returned {:?}, expected {want_r:?}",
                    r.map(|y| y.key())
                );
                let mut want = self.s.clone();
                if let Some(y) = want_r {
                    for (u, v) in [(x, y), (y, x)] {
                        let e = want.links.get_mut(&u.0).unwrap();
                        e.retain(|l| *l != (u, v));
                        if e.is_empty() {
                            want.links.remove(&u.0);
                        }
                    }
                }
                let before = self.subs.clone();
                self.expect("unlink_subport", want, full)?;
                ensure!(before == self.subs, "unlink_subport({x:?}) changed the subports from {before:?} to {:?}", self.subs);
                c.label("unlink_subport");
            }
            5 => {
                let free: Vec<Sub> = self
                    .subs
                    .iter()
                    .filter(|x| !self.s.port_links(x.0).iter().any(|l| l.0 == **x))
                    .copied()
                    .collect();
                let pool: Vec<Sub> = if c.chance(5) { self.subs.iter().copied().collect() } else { free.clone() };
                if pool.is_empty() {
                    return Ok(());
                }
                let (x, y) = (c.pick(&pool), c.pick(&pool));
                c.t(|| format!("link_subports({x:?},{y:?})"));
                let r = no_panic(|| self.g.link_subports(sp(x), sp(y)))
                    .map_err(|e| format!("link_subports({x:?},{y:?}) {e}"))?;
                let ok = free.contains(&x)
                    && free.contains(&y)
                    && self.s.ports[&x.0].1 != self.s.ports[&y.0].1;
                ensure!(r.is_ok() == ok, "link_subports({x:?},{y:?}) = {r:?}");
                let mut want = self.s.clone();
                if ok {
                    for (u, v) in [(x, y), (y, x)] {
                        let e = want.links.entry(u.0).or_default();
                        e.push((u, v));
                        e.sort();
                    }
                }
                self.expect("link_subports", want, full)?;
                c.label("link_subports");
            }
            6 => {
                let Some(n) = self.pick_node(c) else { return Ok(()) };
                let d = &self.s.nodes[&n];
                let (i, o) = if c.flip() {
                    (c.below(6), c.below(6))
                } else {
                    // small perturbation: exercises the in-place path
                    ((d.ins.len() + c.below(3)).saturating_sub(1), (d.outs.len() + c.below(3)).saturating_sub(1))
                };
                c.t(|| format!("set_num_ports({n},{i},{o})"));
                let mut ev = vec![];
                let g = &mut self.g;
                no_panic(|| g.set_num_ports(ni(n), i, o, |p, op| ev.push((p.index(), op))))
                    .map_err(|e| format!("set_num_ports({n},{i},{o}) {e}"))?;
                let (got, subs) = self.obs(full).map_err(|e| format!("after set_num_ports({n},{i},{o}): {e}"))?;
                check_resize(&self.s, &got, n, i, o, &ev, true)?;
                self.s = got;
                self.subs = subs;
                c.label("set_num_ports");
            }
            7 => {
                let (Some(a), Some(b)) = (self.pick_node(c), self.pick_node(c)) else { return Ok(()) };
                c.t(|| format!("swap_nodes({a},{b})"));
                no_panic(|| self.g.swap_nodes(ni(a), ni(b))).map_err(|e| format!("swap_nodes({a},{b}) {e}"))?;
                let want = relabel_nodes(&self.s, |n| if n == a { b } else if n == b { a } else { n });
                self.expect("swap_nodes", want, full)?;
                c.label("swap_nodes");
            }
            8 => {
                c.t(|| "compact_nodes".into());
                let mut ev = vec![];
                let g = &mut self.g;
                no_panic(|| g.compact_nodes(|a: NodeIndex, b: NodeIndex| ev.push((a.index(), b.index()))))
                    .map_err(|e| format!("compact_nodes {e}"))?;
                let map = check_renumber(self.s.nodes.keys().copied(), &ev, "node")?;
                let want = relabel_nodes(&self.s, |n| map[&n]);
                self.expect("compact_nodes", want, full)?;
                c.label("compact_nodes");
            }
            9 => {
                c.t(|| "compact_ports".into());
                let mut ev = vec![];
                let g = &mut self.g;
                no_panic(|| g.compact_ports(|a: PortIndex, b: PortIndex| ev.push((a.index(), b.index()))))
                    .map_err(|e| format!("compact_ports {e}"))?;
                let map = check_renumber(self.s.ports.keys().copied(), &ev, "port")?;
                let want = relabel_ports(&self.s, |n| map[&n]);
                self.expect("compact_ports", want, full)?;
                c.label("compact_ports");
            }
            _ => match c.below(4) {
                0 => {
                    c.t(|| "shrink_to_fit, reserve".into());
                    self.g.shrink_to_fit();
                    self.g.reserve(3, 5);
                    let want = self.s.clone();
                    self.expect("shrink_to_fit", want, full)?;
                }
                1 => {
                    c.t(|| "clone".into());
                    let g2 = self.g.clone();
                    ensure!(g2 == self.g, "clone differs");
                    self.g = g2;
                    let want = self.s.clone();
                    self.expect("clone", want, full)?;
                }
                2 => {
                    c.t(|| "clear".into());
                    self.g.clear();
                    self.expect("clear", Snap::default(), full)?;
                }
                _ => {
                    let mut h = Hist::new();
                    let k = c.below(6);
                    c.t(|| "insert_graph of {".into());
                    let mm = Mix { misc: 0, ..*m };
                    for _ in 0..k {
                        h.step(c, &mm, false)?;
                    }
                    c.t(|| "}".into());
                    let pre = self.s.clone();
                    let map = no_panic(|| self.g.insert_graph(&h.g))
                        .map_err(|e| format!("insert_graph {e}"))?
                        .map_err(|e| format!("insert_graph failed: {e:?}"))?;
                    let (post, subs) = self.obs(full)?;
                    check_insert(&pre, &post, &h.s, &map)?;
                    self.s = post;
                    self.subs = subs;
                    c.label("insert_graph");
                }
            },
        }
        Ok(())
    }
}

fn history(c: &mut Ctx, m: Mix) -> R {
    let mut h = Hist::new();
    let n = 4 + c.below(40);
    for i in 0..n {
        let full = i + 1 == n || c.below(5) == 4;
        h.step(c, &m, full)?;
    }
    c.n(h.cl);
    Ok(())
}

pub fn links(c: &mut Ctx) -> R {
    history(c, Mix { add: 3, remove: 1, link: 14, unlink: 2, usub: 3, lsub: 2, resize: 0, swap: 0, cnodes: 0, cports: 0, misc: 1 })
}
pub fn structure(c: &mut Ctx) -> R {
    history(c, Mix { add: 5, remove: 3, link: 14, unlink: 2, usub: 2, lsub: 1, resize: 5, swap: 2, cnodes: 2, cports: 2, misc: 1 })
}
pub fn exh(c: &mut Ctx) -> R {
    let mut h = Hist::new();
    let k = c.below(2);
    for _ in 0..=k {
        let (i, o) = (c.below(3), c.below(3));
        h.add(c, i, o, false)?;
    }
    for _ in 0..3 {
        let keys: Vec<usize> = h.s.ports.keys().copied().collect();
        if keys.is_empty() {
            break;
        }
        let (a, b) = (c.pick(&keys), c.pick(&keys));
        if h.s.ports[&a].1 && !h.s.ports[&b].1 {
            h.link(c, a, b, false)?;
        }
    }
    let m = Mix { add: 0, remove: 1, link: 0, unlink: 1, usub: 1, lsub: 0, resize: 1, swap: 1, cnodes: 1, cports: 1, misc: 0 };
    for i in 0..2 {
        h.step(c, &m, i == 1)?;
    }
    c.n(h.cl);
    Ok(())
}

/// A multigraph built from a port graph shows the same graph.
pub fn from_pg(c: &mut Ctx) -> R {
    let mut h = crate::pg::Hist::new();
    let m = crate::pg::Mix { add: 6, remove: 3, link: 10, unlink: 1, resize: 2, swap: 1, cnodes: 0, cports: 0, misc: 0, insert: 0 };
    for _ in 0..c.below(30) {
        h.step(c, &m, false, false)?;
    }
    c.t(|| "MultiPortGraph::from".into());
    let g = MultiPortGraph::from(h.g.clone());
    let s = observe(&g, &ObsOpts::FULL, &mut h.cl)?;
    ensure!(s == h.s, "MultiPortGraph::from: {}", diff(&s, &h.s));
    let back: PortGraph = g.into();
    ensure!(back == h.g, "PortGraph -> MultiPortGraph -> PortGraph is not the identity");
    c.n(h.cl);
    let mut hm = Hist { g: MultiPortGraph::from(back), s: s.clone(), subs: BTreeSet::new(), cl: 0 };
    let (_, subs) = hm.obs(false)?;
    hm.subs = subs;
    let m = Mix { add: 2, remove: 3, link: 14, unlink: 2, usub: 2, lsub: 1, resize: 2, swap: 0, cnodes: 1, cports: 1, misc: 0 };
    for _ in 0..c.below(8) {
        hm.step(c, &m, false)?;
    }
    c.n(hm.cl);
    Ok(())
}

#[allow(dead_code)]
pub fn degree_map(s: &Snap) -> BTreeMap<usize, usize> {
    s.links.iter().map(|(p, l)| (*p, l.len())).collect()
}
