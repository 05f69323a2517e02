//! Generation of graphs and hierarchies for the view and algorithm contracts.
use crate::core::*;
use crate::engine::*;
use crate::hier::Forest;
use ::portgraph::{Hierarchy, LinkMut, MultiPortGraph, PortGraph, PortMut, PortView};
use std::collections::{BTreeMap, BTreeSet};

pub type G = PortGraph<u32, u32, u16>;
pub type M = MultiPortGraph<u32, u32, u16>;

pub struct Shape {
    pub nodes: usize,
    pub ports: usize,
    pub acyclic: bool,
    pub links: usize,
}

/// Adds nodes (some removed again, leaving holes) and links. Returns the live
/// nodes in the order that all links of an acyclic graph respect.
pub fn build<T: PortMut + LinkMut>(c: &mut Ctx, g: &mut T, sh: &Shape) -> Vec<usize> {
    let n = c.range(1, sh.nodes);
    let mut order: Vec<usize> = vec![];
    for _ in 0..n {
        if c.chance(6) && !order.is_empty() {
            let k = c.below(order.len());
            let v = order.remove(k);
            c.t(|| format!("remove_node({v})"));
            g.remove_node(ni(v));
        }
        let (i, o) = (c.below(sh.ports + 1), c.below(sh.ports + 1));
        let v = g.add_node(i, o).index();
        c.t(|| format!("add_node({i},{o}) = {v}"));
        let at = order.len() - c.below(order.len() + 1);
        order.insert(at, v);
    }
    if order.len() > 1 && c.chance(4) {
        let k = c.below(order.len());
        let v = order.remove(k);
        c.t(|| format!("remove_node({v})"));
        g.remove_node(ni(v));
    }
    let rank: BTreeMap<usize, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let outs: Vec<(usize, usize)> = order.iter().flat_map(|n| g.outputs(ni(*n)).map(|p| (p.index(), rank[n])).collect::<Vec<_>>()).collect();
    let ins: Vec<(usize, usize)> = order.iter().flat_map(|n| g.inputs(ni(*n)).map(|p| (p.index(), rank[n])).collect::<Vec<_>>()).collect();
    if outs.is_empty() || ins.is_empty() {
        return order;
    }
    let dense = c.below(4);
    let k = c.below(sh.links + 1) * (1 + dense) / 2;
    for _ in 0..k {
        let a = c.pick(&outs);
        let b = if sh.acyclic {
            let ok: Vec<_> = ins.iter().filter(|b| b.1 > a.1).copied().collect();
            if ok.is_empty() {
                continue;
            }
            c.pick(&ok)
        } else {
            c.pick(&ins)
        };
        if g.link_ports(pi(a.0), pi(b.0)).is_ok() {
            c.t(|| format!("link_ports({},{})", a.0, b.0));
        }
    }
    order
}

/// A random forest over the given nodes, in a hierarchy with stale capacity.
pub fn forest(c: &mut Ctx, nodes: &[usize], deep: bool) -> (Hierarchy, Forest) {
    let mut h = Hierarchy::new();
    let mut f = Forest::default();
    // random order of attachment so that indices do not follow the depth
    let mut rest = nodes.to_vec();
    let mut done: Vec<usize> = vec![];
    while !rest.is_empty() {
        let k = c.below(rest.len());
        let n = rest.remove(k);
        if !done.is_empty() && !c.chance(5) {
            let p = if deep && c.below(4) > 0 { *done.last().unwrap() } else { c.pick(&done) };
            let kids = f.kids(p).len();
            if c.flip() {
                c.t(|| format!("push_child({n},{p})"));
                h.push_child(ni(n), ni(p)).expect("attach");
                f.attach(n, p, kids);
            } else {
                c.t(|| format!("push_front_child({n},{p})"));
                h.push_front_child(ni(n), ni(p)).expect("attach");
                f.attach(n, p, 0);
            }
        }
        done.push(n);
    }
    (h, f)
}

/// Restriction of a snapshot: the given nodes, their ports, and the links accepted.
pub fn restrict(s: &Snap, keep: &BTreeSet<usize>, ok: impl Fn(Sub, Sub) -> bool) -> Snap {
    let mut t = Snap::default();
    for (n, d) in &s.nodes {
        if keep.contains(n) {
            t.nodes.insert(*n, d.clone());
        }
    }
    for (p, x) in &s.ports {
        if keep.contains(&x.0) {
            t.ports.insert(*p, *x);
        }
    }
    for (p, ls) in &s.links {
        let v: Vec<_> = ls
            .iter()
            .filter(|(a, b)| t.ports.contains_key(&a.0) && t.ports.contains_key(&b.0) && ok(*a, *b))
            .copied()
            .collect();
        if !v.is_empty() {
            t.links.insert(*p, v);
        }
    }
    t
}

pub fn subset(c: &mut Ctx, xs: &[usize]) -> Vec<usize> {
    let p = c.range(1, 3);
    let mut v = vec![];
    for x in xs {
        if c.below(4) < p {
            v.push(*x);
        }
    }
    // random order
    let mut w = vec![];
    while !v.is_empty() {
        let k = c.below(v.len());
        w.push(v.remove(k));
    }
    w
}
