//! Executable contracts of the `PortGraph` operations over histories.
use crate::core::*;
use crate::engine::*;
use portgraph::portgraph::PortOperation;
use portgraph::{
    Direction, LinkError, LinkMut, NodeIndex, PortGraph, PortIndex, PortMut, PortOffset,
    PortView,
};
use std::collections::BTreeMap;

pub type G = PortGraph<u32, u32, u16>;

/// Which operations a history may contain (weights).
#[derive(Clone, Copy)]
pub struct Mix {
    pub add: usize,
    pub remove: usize,
    pub link: usize,
    pub unlink: usize,
    pub resize: usize,
    pub swap: usize,
    pub cnodes: usize,
    pub cports: usize,
    pub misc: usize,
    pub insert: usize,
}

/// Post-state of a relabelling of nodes.
pub fn relabel_nodes(s: &Snap, f: impl Fn(usize) -> usize) -> Snap {
    let mut t = Snap::default();
    for (n, d) in &s.nodes {
        t.nodes.insert(f(*n), d.clone());
    }
    for (p, (n, o, k)) in &s.ports {
        t.ports.insert(*p, (f(*n), *o, *k));
    }
    t.links = s.links.clone();
    t
}

pub fn relabel_ports(s: &Snap, f: impl Fn(usize) -> usize) -> Snap {
    let mut t = Snap::default();
    for (n, d) in &s.nodes {
        t.nodes.insert(
            *n,
            NodeS {
                ins: d.ins.iter().map(|p| f(*p)).collect(),
                outs: d.outs.iter().map(|p| f(*p)).collect(),
            },
        );
    }
    for (p, x) in &s.ports {
        t.ports.insert(f(*p), *x);
    }
    for (p, l) in &s.links {
        let mut v: Vec<_> = l
            .iter()
            .map(|(a, b)| ((f(a.0), a.1), (f(b.0), b.1)))
            .collect();
        v.sort();
        t.links.insert(f(*p), v);
    }
    t
}

pub fn add_node_post(s: &Snap, n: usize, ins: Vec<usize>, outs: Vec<usize>) -> Snap {
    let mut t = s.clone();
    for (k, p) in ins.iter().enumerate() {
        t.ports.insert(*p, (n, false, k));
    }
    for (k, p) in outs.iter().enumerate() {
        t.ports.insert(*p, (n, true, k));
    }
    t.nodes.insert(n, NodeS { ins, outs });
    t
}

pub fn drop_port_links(t: &mut Snap, p: usize) {
    if let Some(ls) = t.links.remove(&p) {
        for (a, b) in ls {
            if let Some(v) = t.links.get_mut(&b.0) {
                v.retain(|l| *l != (b, a));
                if v.is_empty() {
                    t.links.remove(&b.0);
                }
            }
        }
    }
}

pub fn remove_node_post(s: &Snap, n: usize) -> Snap {
    let mut t = s.clone();
    if let Some(d) = t.nodes.remove(&n) {
        for p in d.all() {
            drop_port_links(&mut t, p);
            t.ports.remove(&p);
        }
    }
    t
}

pub fn diff(got: &Snap, want: &Snap) -> String {
    let mut v = vec![];
    if got.nodes != want.nodes {
        v.push(format!("nodes are {:?}, contract says {:?}", got.nodes, want.nodes));
    }
    if got.ports != want.ports && got.nodes == want.nodes {
        v.push(format!("ports are {:?}, contract says {:?}", got.ports, want.ports));
    }
    if got.links != want.links {
        v.push(format!("links are {:?}, contract says {:?}", got.links, want.links));
    }
    v.join("; ")
}

/// The contract of a sequence of `Moved`/`Removed` notifications for a resize of
/// `node`: exactly the dropped ports are reported removed with their old link, every
/// port that changes index is reported, and replaying the notifications in order on
/// a port-keyed table moves each entry to the port's new index.
pub fn check_resize(
    pre: &Snap,
    post: &Snap,
    n: usize,
    ni_: usize,
    no: usize,
    events: &[(usize, PortOperation)],
    multi: bool,
) -> Result<(), String> {
    let old = &pre.nodes[&n];
    let Some(new) = post.nodes.get(&n) else {
        return Err(format!("node {n} vanished"));
    };
    ensure!(
        new.ins.len() == ni_ && new.outs.len() == no,
        "node {n} has {}+{} ports after set_num_ports({ni_},{no})",
        new.ins.len(),
        new.outs.len()
    );
    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    let mut dropped = vec![];
    for (o, w) in [(&old.ins, &new.ins), (&old.outs, &new.outs)] {
        for (k, p) in o.iter().enumerate() {
            match w.get(k) {
                Some(q) => {
                    map.insert(*p, *q);
                }
                None => dropped.push(*p),
            }
        }
    }
    // Expected graph.
    let mut t = pre.clone();
    for p in &dropped {
        drop_port_links(&mut t, *p);
        t.ports.remove(p);
    }
    {
        let d = t.nodes.get_mut(&n).unwrap();
        d.ins.truncate(ni_);
        d.outs.truncate(no);
    }
    let mut t = relabel_ports(&t, |p| map.get(&p).copied().unwrap_or(p));
    t.nodes.insert(n, new.clone());
    for (k, p) in new.ins.iter().enumerate() {
        t.ports.insert(*p, (n, false, k));
    }
    for (k, p) in new.outs.iter().enumerate() {
        t.ports.insert(*p, (n, true, k));
    }
    if t != *post {
        return Err(format!("after set_num_ports: {}", diff(post, &t)));
    }
    // Notifications.
    let mut table: BTreeMap<usize, usize> = old.all().map(|p| (p, p)).collect();
    let mut removed = vec![];
    for (p, op) in events {
        match op {
            PortOperation::Removed { old_link } => {
                ensure!(
                    dropped.contains(p),
                    "port {p} reported removed, but the dropped ports are {dropped:?}"
                );
                ensure!(!removed.contains(p), "port {p} reported removed twice");
                if multi {
                    let all: Vec<usize> = pre.port_links(*p).iter().map(|l| l.1 .0).collect();
                    match old_link {
                        Some(l) => ensure!(
                            all.contains(&l.index()),
                            "port {p} reported removed with old link {l:?}, but it was linked to {all:?}"
                        ),
                        None => ensure!(
                            all.iter().all(|q| removed.contains(q) || q == p),
                            "port {p} reported removed without a link, but it was linked to {all:?}"
                        ),
                    }
                } else {
                    let want = pre.port_links(*p).first().map(|l| l.1 .0);
                    let want = want.filter(|q| !removed.contains(q));
                    ensure!(
                        old_link.map(|l| l.index()) == want,
                        "port {p} reported removed with old link {old_link:?}, expected {want:?}"
                    );
                }
                removed.push(*p);
                table.remove(p);
            }
            PortOperation::Moved { new_index } => {
                ensure!(
                    map.get(p) == Some(&new_index.index()),
                    "port {p} reported moved to {new_index:?}, but it is now {:?}",
                    map.get(p)
                );
                if let Some(x) = table.remove(p) {
                    table.insert(new_index.index(), x);
                }
            }
        }
    }
    let mut r = removed.clone();
    r.sort();
    dropped.sort();
    ensure!(r == dropped, "ports {dropped:?} were dropped but {r:?} were reported");
    let want: BTreeMap<usize, usize> = map.iter().map(|(o, n)| (*n, *o)).collect();
    ensure!(
        table == want,
        "replaying the notifications in order gives {table:?}, the ports actually moved as {want:?}"
    );
    Ok(())
}

/// Contract of a list of (old,new) renumbering notifications.
pub fn check_renumber(
    live: impl Iterator<Item = usize>,
    events: &[(usize, usize)],
    what: &str,
) -> Result<BTreeMap<usize, usize>, String> {
    let mut table: BTreeMap<usize, usize> = live.map(|p| (p, p)).collect();
    let mut seen = std::collections::BTreeSet::new();
    for (o, n) in events {
        ensure!(seen.insert(*o), "{what} {o} reported moved twice");
        let Some(x) = table.remove(o) else {
            return Err(format!("{what} {o} reported moved but it was not live"));
        };
        ensure!(
            !table.contains_key(n),
            "{what} {o} reported moved to {n}, which is still occupied at that time"
        );
        table.insert(*n, x);
    }
    Ok(table.into_iter().map(|(n, o)| (o, n)).collect())
}

pub fn find_link_error(
    pre: &Snap,
    a: usize,
    b: usize,
    one_to_one: bool,
) -> Vec<LinkError<u16>> {
    let mut v = vec![];
    let (pa, pb) = (pre.ports.get(&a), pre.ports.get(&b));
    if pa.is_none() {
        v.push(LinkError::UnknownPort { port: pi(a) });
    }
    if pb.is_none() {
        v.push(LinkError::UnknownPort { port: pi(b) });
    }
    if let (Some(x), Some(y)) = (pa, pb) {
        if x.1 == y.1 {
            v.push(LinkError::IncompatibleDirections {
                port_a: pi(a),
                port_b: pi(b),
                dir: if x.1 { Direction::Outgoing } else { Direction::Incoming },
            });
        }
    }
    if one_to_one {
        for p in [a, b] {
            if pre.links.contains_key(&p) {
                v.push(LinkError::AlreadyLinked { port: pi(p) });
            }
        }
    }
    v
}

pub struct Hist {
    pub g: G,
    pub s: Snap,
    /// One past the largest node slot that may exist (bound for swap_nodes).
    pub slots: usize,
    pub cl: u64,
}

fn pick_node(c: &mut Ctx, s: &Snap, absent_ok: bool) -> usize {
    let keys: Vec<usize> = s.nodes.keys().copied().collect();
    if keys.is_empty() || (absent_ok && c.chance(8)) {
        let m = keys.last().map_or(0, |x| x + 1);
        return c.below(m + 2);
    }
    c.pick(&keys)
}
fn pick_port(c: &mut Ctx, s: &Snap, absent_ok: bool) -> usize {
    let keys: Vec<usize> = s.ports.keys().copied().collect();
    if keys.is_empty() || (absent_ok && c.chance(10)) {
        let m = keys.last().map_or(0, |x| x + 1);
        return c.below(m + 2);
    }
    c.pick(&keys)
}

/// A pair of ports likely to be linkable.
fn pick_pair(c: &mut Ctx, s: &Snap) -> (usize, usize) {
    let a = pick_port(c, s, true);
    if c.chance(6) {
        return (a, pick_port(c, s, true));
    }
    let dir = s.ports.get(&a).map(|x| x.1);
    let free: Vec<usize> = s
        .ports
        .iter()
        .filter(|(p, x)| Some(x.1) != dir && !s.links.contains_key(p))
        .map(|x| *x.0)
        .collect();
    if free.is_empty() {
        return (a, pick_port(c, s, true));
    }
    (a, c.pick(&free))
}

impl Hist {
    pub fn new() -> Self {
        Hist { g: G::new(), s: Snap::default(), slots: 0, cl: 0 }
    }
    fn obs(&mut self, full: bool) -> Result<Snap, String> {
        let o = if full { &ObsOpts::FULL } else { &ObsOpts::LIGHT };
        let s = observe(&self.g, o, &mut self.cl)?;
        if full {
            absent_lookups(&self.g, &s, &mut self.cl)?;
        }
        self.slots = self.slots.max(s.nodes.keys().next_back().map_or(0, |x| x + 1));
        Ok(s)
    }
    fn expect(&mut self, op: &str, want: Snap, full: bool) -> R {
        let got = self.obs(full).map_err(|e| format!("after {op}: {e}"))?;
        self.cl += 3;
        if got != want {
            return Err(format!("after {op}: {}", diff(&got, &want)));
        }
        self.s = got;
        Ok(())
    }

    pub fn add(&mut self, c: &mut Ctx, i: usize, o: usize, full: bool) -> Result<usize, String> {
        let n = no_panic(|| self.g.add_node(i, o)).map_err(|e| {
            c.t(|| format!("add_node({i},{o})"));
            format!("add_node({i},{o}) {e}")
        })?;
        c.t(|| format!("add_node({i},{o}) = {}", n.index()));
        let k = n.index();
        ensure!(
            !self.s.nodes.contains_key(&k),
            "add_node returned {k}, the index of a live node"
        );
        let ins: Vec<_> = self.g.inputs(n).map(|p| p.index()).collect();
        let outs: Vec<_> = self.g.outputs(n).map(|p| p.index()).collect();
        ensure!(
            ins.len() == i && outs.len() == o,
            "add_node({i},{o}) made a node with {}+{} ports",
            ins.len(),
            outs.len()
        );
        for p in ins.iter().chain(outs.iter()) {
            ensure!(
                !self.s.ports.contains_key(p),
                "add_node gave the new node port {p}, owned by live node {}",
                self.s.ports[p].0
            );
        }
        let want = add_node_post(&self.s, k, ins, outs);
        self.expect("add_node", want, full)?;
        Ok(k)
    }

    pub fn resize(&mut self, c: &mut Ctx, n: usize, i: usize, o: usize, full: bool) -> R {
        c.t(|| format!("set_num_ports({n},{i},{o})"));
        let mut ev = vec![];
        let g = &mut self.g;
        no_panic(|| g.set_num_ports(ni(n), i, o, |p, op| ev.push((p.index(), op))))
            .map_err(|e| format!("set_num_ports({n},{i},{o}) {e}"))?;
        let got = self.obs(full).map_err(|e| format!("after set_num_ports({n},{i},{o}): {e}"))?;
        if self.s.nodes.contains_key(&n) {
            check_resize(&self.s, &got, n, i, o, &ev, false)?;
        } else {
            ensure!(ev.is_empty(), "set_num_ports on an absent node notified {ev:?}");
            ensure!(got == self.s, "set_num_ports on an absent node: {}", diff(&got, &self.s));
        }
        self.cl += 6;
        self.s = got;
        Ok(())
    }

    pub fn link(&mut self, c: &mut Ctx, a: usize, b: usize, full: bool) -> R {
        c.t(|| format!("link_ports({a},{b})"));
        let errs = find_link_error(&self.s, a, b, true);
        let r = no_panic(|| self.g.link_ports(pi(a), pi(b)))
            .map_err(|e| format!("link_ports({a},{b}) {e}"))?;
        self.link_result("link_ports", a, b, errs, r, full)
    }

    fn link_result(
        &mut self,
        op: &str,
        a: usize,
        b: usize,
        errs: Vec<LinkError<u16>>,
        r: Result<(PortIndex, PortIndex), LinkError<u16>>,
        full: bool,
    ) -> R {
        self.cl += 2;
        match r {
            Err(e) => {
                ensure!(
                    errs.contains(&e),
                    "{op}({a},{b}) failed with {e:?}; applicable errors: {errs:?}"
                );
                let want = self.s.clone();
                self.expect("failed link", want, full)
            }
            Ok((x, y)) => {
                ensure!(
                    errs.is_empty(),
                    "{op}({a},{b}) succeeded although {errs:?}"
                );
                ensure!(
                    x.index() == a && y.index() == b,
                    "{op}({a},{b}) returned ({x:?},{y:?})"
                );
                let mut want = self.s.clone();
                want.links.insert(a, vec![((a, 0), (b, 0))]);
                want.links.insert(b, vec![((b, 0), (a, 0))]);
                self.expect("link", want, full)
            }
        }
    }

    pub fn step(&mut self, c: &mut Ctx, m: &Mix, big: bool, full: bool) -> R {
        let exh = c.exhaustive;
        let pmax = if exh { 2 } else { 4 };
        let w = [
            m.add, m.remove, m.link, m.unlink, m.resize, m.swap, m.cnodes, m.cports, m.misc, m.insert,
        ];
        match c.weighted(&w) {
            0 => {
                let (i, o) = if big && c.chance(6) {
                    (c.below(70), c.below(70))
                } else {
                    (c.below(pmax), c.below(pmax))
                };
                self.add(c, i, o, full)?;
                c.label("add_node");
            }
            1 => {
                let n = pick_node(c, &self.s, true);
                c.t(|| format!("remove_node({n})"));
                let want = remove_node_post(&self.s, n);
                no_panic(|| self.g.remove_node(ni(n))).map_err(|e| format!("remove_node({n}) {e}"))?;
                self.expect("remove_node", want, full)?;
                c.label("remove_node");
            }
            2 => {
                if !exh && c.chance(4) {
                    // by offsets
                    let (n1, n2) = (pick_node(c, &self.s, true), pick_node(c, &self.s, true));
                    let (k1, k2) = (c.below(4), c.below(4));
                    let plain = c.flip();
                    let (d1, d2) = if plain || c.flip() { (true, false) } else { (c.flip(), c.flip()) };
                    let mk = |d: bool, k: usize| if d { PortOffset::<u16>::new_outgoing(k) } else { PortOffset::new_incoming(k) };
                    let look = |s: &Snap, n: usize, d: bool, k: usize| {
                        s.nodes.get(&n).and_then(|x| if d { x.outs.get(k) } else { x.ins.get(k) }.copied())
                    };
                    let (a, b) = (look(&self.s, n1, d1, k1), look(&self.s, n2, d2, k2));
                    c.t(|| format!("link_offsets({n1},{d1}:{k1},{n2},{d2}:{k2})"));
                    let r = no_panic(|| {
                        if d1 && !d2 && plain {
                            self.g.link_nodes(ni(n1), k1, ni(n2), k2)
                        } else {
                            self.g.link_offsets(ni(n1), mk(d1, k1), ni(n2), mk(d2, k2))
                        }
                    })
                    .map_err(|e| format!("link_offsets {e}"))?;
                    let mut errs = vec![];
                    if a.is_none() {
                        errs.push(LinkError::UnknownOffset { node: ni(n1), offset: mk(d1, k1) });
                    }
                    if b.is_none() {
                        errs.push(LinkError::UnknownOffset { node: ni(n2), offset: mk(d2, k2) });
                    }
                    if let (Some(a), Some(b)) = (a, b) {
                        errs = find_link_error(&self.s, a, b, true);
                    }
                    self.link_result("link_offsets", a.unwrap_or(0), b.unwrap_or(0), errs, r, full)?;
                } else {
                    let (a, b) = if exh {
                        (pick_port(c, &self.s, false), pick_port(c, &self.s, false))
                    } else {
                        pick_pair(c, &self.s)
                    };
                    self.link(c, a, b, full)?;
                }
                c.label("link");
            }
            3 => {
                let p = pick_port(c, &self.s, true);
                c.t(|| format!("unlink_port({p})"));
                let r = no_panic(|| self.g.unlink_port(pi(p))).map_err(|e| format!("unlink_port({p}) {e}"))?;
                let want_r = self.s.port_links(p).first().map(|l| l.1 .0);
                ensure!(
                    r.map(|x| x.index()) == want_r,
                    "unlink_port({p}) returned {r:?}, expected {want_r:?}"
                );
                let mut want = self.s.clone();
                drop_port_links(&mut want, p);
                self.expect("unlink_port", want, full)?;
                c.label("unlink_port");
            }
            4 => {
                let n = pick_node(c, &self.s, true);
                let (i, o) = if big && c.chance(6) {
                    (c.below(140), c.below(140))
                } else {
                    (c.below(pmax + 2), c.below(pmax + 2))
                };
                self.resize(c, n, i, o, full)?;
                c.label("set_num_ports");
            }
            5 => {
                if self.slots == 0 {
                    return Ok(());
                }
                let (a, b) = (c.below(self.slots), c.below(self.slots));
                c.t(|| format!("swap_nodes({a},{b})"));
                no_panic(|| self.g.swap_nodes(ni(a), ni(b))).map_err(|e| format!("swap_nodes({a},{b}) {e}"))?;
                let want = relabel_nodes(&self.s, |n| if n == a { b } else if n == b { a } else { n });
                self.expect("swap_nodes", want, full)?;
                c.label("swap_nodes");
            }
            6 => {
                c.t(|| "compact_nodes".into());
                let mut ev = vec![];
                let g = &mut self.g;
                no_panic(|| g.compact_nodes(|a: NodeIndex, b: NodeIndex| ev.push((a.index(), b.index()))))
                    .map_err(|e| format!("compact_nodes {e}"))?;
                let map = check_renumber(self.s.nodes.keys().copied(), &ev, "node")?;
                let want = relabel_nodes(&self.s, |n| map[&n]);
                self.expect("compact_nodes", want, full)?;
                let k = self.s.nodes.len();
                ensure!(
                    self.s.nodes.keys().copied().eq(0..k),
                    "compact_nodes left node indices {:?}",
                    self.s.nodes.keys().collect::<Vec<_>>()
                );
                self.slots = k;
                c.label("compact_nodes");
            }
            7 => {
                c.t(|| "compact_ports".into());
                let mut ev = vec![];
                let g = &mut self.g;
                no_panic(|| g.compact_ports(|a: PortIndex, b: PortIndex| ev.push((a.index(), b.index()))))
                    .map_err(|e| format!("compact_ports {e}"))?;
                let map = check_renumber(self.s.ports.keys().copied(), &ev, "port")?;
                let want = relabel_ports(&self.s, |n| map[&n]);
                self.expect("compact_ports", want, full)?;
                ensure!(
                    self.s.ports.keys().copied().eq(0..self.s.ports.len()),
                    "compact_ports left port indices {:?}",
                    self.s.ports.keys().collect::<Vec<_>>()
                );
                c.label("compact_ports");
            }
            8 => match c.below(4) {
                0 => {
                    c.t(|| "shrink_to_fit".into());
                    self.g.shrink_to_fit();
                    let want = self.s.clone();
                    self.expect("shrink_to_fit", want, full)?;
                }
                1 => {
                    let (a, b) = (c.below(20), c.below(20));
                    c.t(|| format!("reserve({a},{b})"));
                    self.g.reserve(a, b);
                    let want = self.s.clone();
                    self.expect("reserve", want, full)?;
                }
                2 => {
                    c.t(|| "clone".into());
                    let g2 = self.g.clone();
                    ensure!(g2 == self.g, "a clone differs from the original");
                    self.g = g2;
                    let want = self.s.clone();
                    self.expect("clone", want, full)?;
                }
                _ => {
                    if !exh && !c.chance(4) {
                        return Ok(());
                    }
                    c.t(|| "clear".into());
                    self.g.clear();
                    self.slots = 0;
                    self.expect("clear", Snap::default(), full)?;
                    c.label("clear");
                }
            },
            _ => {
                let mut h = Hist::new();
                let k = c.below(5);
                c.t(|| "insert_graph of {".into());
                let mm = Mix { insert: 0, misc: 0, ..*m };
                for _ in 0..k {
                    h.step(c, &mm, false, false)?;
                }
                c.t(|| "}".into());
                self.insert(c, &h, full)?;
                c.label("insert_graph");
            }
        }
        Ok(())
    }

    pub fn insert(&mut self, _c: &mut Ctx, h: &Hist, full: bool) -> R {
        let pre = self.s.clone();
        let map = no_panic(|| self.g.insert_graph(&h.g))
            .map_err(|e| format!("insert_graph {e}"))?
            .map_err(|e| format!("insert_graph failed: {e:?}"))?;
        let post = self.obs(full)?;
        check_insert(&pre, &post, &h.s, &map)?;
        self.cl += 5;
        self.s = post;
        Ok(())
    }
}

/// Contract of inserting a disjoint copy: `post` = `pre` + an isomorphic copy of `other`
/// under the returned node map (ports correspond by offset).
pub fn check_insert(
    pre: &Snap,
    post: &Snap,
    other: &Snap,
    map: &std::collections::HashMap<NodeIndex, NodeIndex>,
) -> R {
    ensure!(
        map.len() == other.nodes.len(),
        "insert_graph maps {} nodes, the inserted graph has {}",
        map.len(),
        other.nodes.len()
    );
    let mut want = pre.clone();
    let mut pm = BTreeMap::new();
    for (n, d) in &other.nodes {
        let Some(k) = map.get(&ni(*n)) else {
            return Err(format!("insert_graph does not map node {n}"));
        };
        let k = k.index();
        ensure!(!pre.nodes.contains_key(&k), "inserted node {n} became {k}, already live");
        ensure!(!want.nodes.contains_key(&k), "two inserted nodes became {k}");
        let Some(nd) = post.nodes.get(&k) else {
            return Err(format!("inserted node {n} became {k}, which is not live"));
        };
        ensure!(
            nd.ins.len() == d.ins.len() && nd.outs.len() == d.outs.len(),
            "inserted node {n} has {}+{} ports, original {}+{}",
            nd.ins.len(),
            nd.outs.len(),
            d.ins.len(),
            d.outs.len()
        );
        for (a, b) in d.all().zip(nd.all()) {
            pm.insert(a, b);
        }
        want = add_node_post(&want, k, nd.ins.clone(), nd.outs.clone());
    }
    ensure!(post.nodes == want.nodes, "insert_graph: {}", diff(post, &want));
    ensure!(post.ports == want.ports, "insert_graph: {}", diff(post, &want));
    let mut links = pre.directed();
    for (a, b) in other.directed() {
        links.push((pm[&a], pm[&b]));
    }
    links.sort();
    ensure!(
        post.directed() == links,
        "insert_graph: links {:?}, contract says {:?}",
        post.directed(),
        links
    );
    Ok(())
}

fn history(c: &mut Ctx, m: Mix) -> R {
    let mut h = Hist::new();
    let (n, big) = if c.exhaustive {
        (4, false)
    } else {
        let big = c.chance(8);
        (4 + c.below(if big { 30 } else { 44 }), big)
    };
    for i in 0..n {
        let full = if c.exhaustive { i + 1 == n } else { i + 1 == n || c.below(5) == 4 };
        h.step(c, &m, big, full)?;
    }
    c.n(h.cl);
    Ok(())
}

pub fn lifecycle(c: &mut Ctx) -> R {
    history(c, Mix { add: 10, remove: 8, link: 5, unlink: 1, resize: 2, swap: 1, cnodes: 1, cports: 1, misc: 2, insert: 0 })
}
pub fn links(c: &mut Ctx) -> R {
    history(c, Mix { add: 5, remove: 2, link: 14, unlink: 6, resize: 1, swap: 0, cnodes: 0, cports: 0, misc: 0, insert: 0 })
}
pub fn resize(c: &mut Ctx) -> R {
    history(c, Mix { add: 5, remove: 3, link: 10, unlink: 1, resize: 12, swap: 0, cnodes: 0, cports: 1, misc: 0, insert: 0 })
}
pub fn renumber(c: &mut Ctx) -> R {
    history(c, Mix { add: 8, remove: 6, link: 6, unlink: 1, resize: 3, swap: 6, cnodes: 3, cports: 3, misc: 0, insert: 0 })
}
pub fn insert(c: &mut Ctx) -> R {
    history(c, Mix { add: 5, remove: 2, link: 6, unlink: 0, resize: 1, swap: 0, cnodes: 0, cports: 0, misc: 0, insert: 5 })
}

/// Fixed scope for exhaustive enumeration of short histories.
fn exh_mix(c: &mut Ctx, m: Mix, depth: usize) -> R {
    let mut h = Hist::new();
    // Prefix: up to 2 nodes (sizes 0..2) and a link, then `depth` free operations.
    let k = c.below(3);
    for _ in 0..=k {
        let (i, o) = (c.below(2), c.below(2));
        h.add(c, i, o, false)?;
    }
    for i in 0..depth {
        h.step(c, &m, false, i + 1 == depth)?;
    }
    c.n(h.cl);
    Ok(())
}
pub fn exh_all(c: &mut Ctx) -> R {
    exh_mix(c, Mix { add: 1, remove: 1, link: 1, unlink: 1, resize: 1, swap: 1, cnodes: 1, cports: 1, misc: 0, insert: 0 }, 3)
}

/// Port counts around the representation limits: a node may have up to the
/// documented maximum number of ports per direction.
pub fn limits(c: &mut Ctx) -> R {
    let mut h = Hist::new();
    h.add(c, 1, 1, false)?;
    let max = PortOffset::<u16>::max_offset();
    let sizes = [0, 1, 255, 256, 257, 4096, 16383, 16384, 16385, 32765, 32766, 32767];
    let pick = |c: &mut Ctx| {
        let s = c.pick(&sizes);
        s.min(max)
    };
    let (i, o) = (pick(c), pick(c));
    let n = h.add(c, i, o, false)?;
    let p0 = h.s.nodes[&0].clone();
    if o > 0 {
        let q = h.s.nodes[&n].outs[o - 1];
        h.link(c, q, p0.ins[0], false)?;
    }
    if i > 0 {
        let q = h.s.nodes[&n].ins[i - 1];
        h.link(c, p0.outs[0], q, false)?;
    }
    for _ in 0..c.below(3) {
        let (i2, o2) = (pick(c), pick(c));
        if i2 + o2 <= u16::MAX as usize {
            h.resize(c, n, i2, o2, false)?;
        }
    }
    let want = remove_node_post(&h.s, n);
    c.t(|| format!("remove_node({n})"));
    h.g.remove_node(ni(n));
    h.expect("remove_node", want, false)?;
    h.add(c, 1, 1, true)?;
    c.n(h.cl);
    Ok(())
}

/// The narrow offset width: port counts stay within what an offset can address.
pub fn limits_u8(c: &mut Ctx) -> R {
    let mut g: PortGraph<u32, u32, u8> = PortGraph::new();
    let max = PortOffset::<u8>::max_offset();
    let sizes = [0, 1, 2, max - 1, max, max + 1, max + 2, 130, 200, 255, 256, 300];
    let (i, o) = (c.pick(&sizes), c.pick(&sizes));
    c.t(|| format!("PortGraph<u32,u32,u8>: add_node({i},{o})"));
    let r = no_panic(|| g.add_node(i, o));
    let ok = i <= max && o <= max;
    c.n(1);
    ensure!(r.is_ok() == ok, "add_node({i},{o}) with u8 offsets: {:?}", r.err());
    if !ok {
        return Ok(());
    }
    let n = r.unwrap();
    let (i2, o2) = (c.pick(&sizes), c.pick(&sizes));
    c.t(|| format!("set_num_ports({i2},{o2})"));
    let r = no_panic(|| g.set_num_ports(n, i2, o2, |_, _| {}));
    let ok = i2 <= max && o2 <= max;
    ensure!(r.is_ok() == ok, "set_num_ports({i2},{o2}) with u8 offsets: {:?}", r.err());
    if !ok {
        return Ok(());
    }
    let mut cl = 0;
    let s = observe(&g, &ObsOpts::LIGHT, &mut cl)?;
    let d = &s.nodes[&n.index()];
    ensure!(d.ins.len() == i2 && d.outs.len() == o2, "wrong number of ports");
    c.n(cl);
    Ok(())
}
