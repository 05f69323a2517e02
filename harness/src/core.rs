//! Observation of a graph through its public interface, with the invariant
//! clauses that must hold of every observation ("all enumerations agree").
use portgraph::index::Unsigned;
use portgraph::multiportgraph::SubportIndex;
use portgraph::{Direction, LinkView, NodeIndex, PortIndex, PortOffset, PortView};
use std::collections::{BTreeMap, BTreeSet};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub trait Ep: Copy + PartialEq + std::fmt::Debug {
    fn port(&self) -> usize;
    fn off(&self) -> usize;
    fn key(&self) -> (usize, usize) {
        (self.port(), self.off())
    }
}
impl Ep for PortIndex {
    fn port(&self) -> usize {
        self.index()
    }
    fn off(&self) -> usize {
        0
    }
}
impl Ep for SubportIndex {
    fn port(&self) -> usize {
        SubportIndex::port(*self).index()
    }
    fn off(&self) -> usize {
        self.offset()
    }
}

pub type Sub = (usize, usize);

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct NodeS {
    pub ins: Vec<usize>,
    pub outs: Vec<usize>,
}
impl NodeS {
    pub fn all(&self) -> impl Iterator<Item = usize> + '_ {
        self.ins.iter().chain(self.outs.iter()).copied()
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Snap {
    pub nodes: BTreeMap<usize, NodeS>,
    /// port -> (node, is output, offset)
    pub ports: BTreeMap<usize, (usize, bool, usize)>,
    /// own port -> sorted list of (own subport, other subport)
    pub links: BTreeMap<usize, Vec<(Sub, Sub)>>,
}

impl Snap {
    pub fn link_count(&self) -> usize {
        self.links.values().map(|v| v.len()).sum::<usize>() / 2
    }
    pub fn port_links(&self, p: usize) -> &[(Sub, Sub)] {
        self.links.get(&p).map(|v| v.as_slice()).unwrap_or(&[])
    }
    /// Links as offsets: ((node,out,offset,sub),(node,out,offset,sub)), both orientations.
    pub fn link_list(&self) -> Vec<(Sub, Sub)> {
        let mut v: Vec<_> = self.links.values().flatten().copied().collect();
        v.sort();
        v
    }
    /// set of directed links (out port, in port) with multiplicity, sorted
    pub fn directed(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (p, ls) in &self.links {
            if self.ports[p].1 {
                for (_, o) in ls {
                    v.push((*p, o.0));
                }
            }
        }
        v.sort();
        v
    }
    pub fn has_port(&self, p: usize) -> bool {
        self.ports.contains_key(&p)
    }
    pub fn succ(&self, n: usize, out: bool) -> Vec<usize> {
        let nd = &self.nodes[&n];
        let ps = if out { &nd.outs } else { &nd.ins };
        let mut v = vec![];
        for p in ps {
            for (_, o) in self.port_links(*p) {
                v.push(self.ports[&o.0].0);
            }
        }
        v
    }
}

pub fn ni(i: usize) -> NodeIndex {
    NodeIndex::new(i)
}
pub fn pi(i: usize) -> PortIndex {
    PortIndex::new(i)
}

/// Checks an iterator's size_hint bounds against what it yields, at every step.
fn drain<T: PartialEq + Clone + std::fmt::Debug, I: Iterator<Item = T> + Clone>(mut it: I, what: &str) -> Result<Vec<T>, String> {
    let start = it.clone();
    let all: Vec<T> = it.clone().collect();
    let n = all.len();
    let mut k = 0;
    loop {
        let (lo, hi) = it.size_hint();
        ensure!(
            lo <= n - k && hi.map_or(true, |h| h >= n - k),
            "{what}: size_hint ({lo},{hi:?}) but {} items remain",
            n - k
        );
        if it.next().is_none() {
            break;
        }
        k += 1;
        ensure!(k <= n, "{what}: clone yields fewer items than the original");
    }
    ensure!(it.clone().next().is_none() , "{what}: iterator resumed after None");
    ensure!(k == n, "{what}: iterator and its clone disagree");
    if n <= 40 {
        // the other ways of consuming the iterator
        ensure!(start.clone().count() == n, "{what}: count() = {}, but {n} items", start.clone().count());
        ensure!(start.clone().last() == all.last().cloned(), "{what}: last() = {:?}", start.clone().last());
        let f = start.clone().fold(vec![], |mut v, x| {
            v.push(x);
            v
        });
        ensure!(f == all, "{what}: fold visits {f:?}, next() yields {all:?}");
        for j in [0, 1, n / 2, n.saturating_sub(1), n] {
            let mut i = start.clone();
            let x = i.nth(j);
            ensure!(x.as_ref() == all.get(j), "{what}: nth({j}) = {x:?} of {all:?}");
            let y = i.next();
            ensure!(y.as_ref() == all.get(j + 1), "{what}: next() after nth({j}) = {y:?} of {all:?}");
            let mut i = start.clone();
            i.next();
            ensure!(i.clone().count() == n.saturating_sub(1), "{what}: count() after next() = {}", i.count());
            let x = i.nth(j);
            ensure!(x.as_ref() == all.get(j + 1), "{what}: nth({j}) after next() = {x:?} of {all:?}");
        }
    }
    Ok(all)
}

pub struct ObsOpts {
    /// Check get_connections over all pairs when at most this many nodes.
    pub pairs: usize,
    /// All clauses on enumerators (false: only build the snapshot from the primary ones).
    pub full: bool,
}
impl ObsOpts {
    pub const FULL: ObsOpts = ObsOpts { pairs: 5, full: true };
    pub const LIGHT: ObsOpts = ObsOpts { pairs: 0, full: false };
}

pub fn observe<G>(g: &G, o: &ObsOpts, clauses: &mut u64) -> Result<Snap, String>
where
    G: LinkView,
    G::LinkEndpoint: Ep,
{
    let mut s = Snap::default();
    let nodes = drain(g.nodes_iter(), "nodes_iter")?;
    ensure!(
        nodes.len() == g.node_count(),
        "node_count {} but nodes_iter yields {}",
        g.node_count(),
        nodes.len()
    );
    *clauses += 2;
    let mut max_node = 0;
    for n in &nodes {
        max_node = max_node.max(n.index());
        ensure!(g.contains_node(*n), "nodes_iter yields {n:?} which contains_node denies");
        let ins: Vec<usize> = g.inputs(*n).map(|p| p.index()).collect();
        let outs: Vec<usize> = g.outputs(*n).map(|p| p.index()).collect();
        for (dir, list) in [(Direction::Incoming, &ins), (Direction::Outgoing, &outs)] {
            for (k, p) in list.iter().enumerate() {
                let prev = s
                    .ports
                    .insert(*p, (n.index(), dir == Direction::Outgoing, k));
                ensure!(
                    prev.is_none(),
                    "port {p} belongs both to {n:?} {dir:?} #{k} and to {prev:?}"
                );
            }
        }
        let prev = s.nodes.insert(n.index(), NodeS { ins, outs });
        ensure!(prev.is_none(), "nodes_iter yields {n:?} twice");
        *clauses += 3;
    }
    let ports = drain(g.ports_iter(), "ports_iter")?;
    let port_set: BTreeSet<usize> = ports.iter().map(|p| p.index()).collect();
    ensure!(port_set.len() == ports.len(), "ports_iter yields a port twice");
    ensure!(
        port_set.iter().eq(s.ports.keys()),
        "ports_iter yields {port_set:?} but the nodes own {:?}",
        s.ports.keys().collect::<Vec<_>>()
    );
    ensure!(
        g.port_count() == ports.len(),
        "port_count {} but there are {} ports",
        g.port_count(),
        ports.len()
    );
    *clauses += 3;
    let max_port = port_set.iter().next_back().copied().unwrap_or(0);
    // Per-port lookups.
    for (p, (n, out, k)) in &s.ports {
        let p_ = pi(*p);
        let dir = if *out { Direction::Outgoing } else { Direction::Incoming };
        ensure!(g.contains_port(p_), "contains_port({p}) is false for a live port");
        ensure!(
            g.port_node(p_) == Some(ni(*n)),
            "port_node({p}) = {:?}, expected {n}",
            g.port_node(p_)
        );
        ensure!(
            g.port_direction(p_) == Some(dir),
            "port_direction({p}) = {:?}, expected {dir:?}",
            g.port_direction(p_)
        );
        let off = PortOffset::<G::PortOffsetBase>::new(dir, *k);
        ensure!(
            g.port_offset(p_) == Some(off),
            "port_offset({p}) = {:?}, expected {dir:?} {k}",
            g.port_offset(p_)
        );
        ensure!(
            g.port_index(ni(*n), off) == Some(p_),
            "port_index({n},{dir:?} {k}) = {:?}, expected {p}",
            g.port_index(ni(*n), off)
        );
        *clauses += 5;
    }
    // Links, per port.
    for p in s.ports.keys() {
        let ls: Vec<(Sub, Sub)> = g
            .port_links(pi(*p))
            .map(|(a, b)| (a.key(), b.key()))
            .collect();
        for (a, b) in &ls {
            ensure!(a.0 == *p, "port_links({p}) yields a link of port {}", a.0);
            let Some((_, bo, _)) = s.ports.get(&b.0) else {
                return Err(format!("port {p} is linked to {} which is not a live port", b.0));
            };
            ensure!(
                *bo != s.ports[p].1,
                "port {p} is linked to port {} of the same direction",
                b.0
            );
            *clauses += 3;
        }
        let first = g.port_link(pi(*p)).map(|e| e.key());
        match first {
            None => ensure!(ls.is_empty(), "port_link({p}) is None but port_links is not empty"),
            Some(f) => ensure!(
                ls.iter().any(|l| l.1 == f),
                "port_link({p}) = {f:?} is not among port_links {ls:?}"
            ),
        }
        let mut sorted = ls;
        sorted.sort();
        if !sorted.is_empty() {
            s.links.insert(*p, sorted);
        }
    }
    // Symmetry.
    for (p, ls) in &s.links {
        for (i, (a, b)) in ls.iter().enumerate() {
            let back = s.links.get(&b.0).map_or(0, |v| v.iter().filter(|l| **l == (*b, *a)).count());
            ensure!(
                back == 1,
                "link {a:?}->{b:?} (port {p}) has {back} back links {:?}",
                s.links.get(&b.0)
            );
            ensure!(
                i == 0 || ls[i - 1].0 != *a,
                "endpoint {a:?} carries two links"
            );
            *clauses += 2;
        }
    }
    ensure!(
        s.link_count() == g.link_count(),
        "link_count {} but {} links are present",
        g.link_count(),
        s.link_count()
    );
    ensure!(
        !g.is_empty() || nodes.is_empty(),
        "is_empty() although there are nodes"
    );
    ensure!(
        g.is_empty() || !nodes.is_empty() ,
        "not is_empty() although there are no nodes"
    );
    *clauses += 3;
    if !o.full {
        return Ok(s);
    }
    full_clauses(g, &s, &nodes, max_node, max_port, o, clauses)?;
    Ok(s)
}

fn full_clauses<G>(
    g: &G,
    s: &Snap,
    nodes: &[NodeIndex],
    max_node: usize,
    max_port: usize,
    o: &ObsOpts,
    clauses: &mut u64,
) -> Result<(), String>
where
    G: LinkView,
    G::LinkEndpoint: Ep,
{
    // Per-node enumerations.
    for n in nodes {
        let ns = &s.nodes[&n.index()];
        let mut all_offs = vec![];
        for dir in Direction::BOTH {
            let list = if dir == Direction::Incoming { &ns.ins } else { &ns.outs };
            let via_ports = drain(g.ports(*n, dir), "ports")?;
            ensure!(
                via_ports.iter().map(|p| p.index()).eq(list.iter().copied()),
                "ports({n:?},{dir:?}) = {via_ports:?}, inputs/outputs = {list:?}"
            );
            ensure!(
                g.num_ports(*n, dir) == list.len(),
                "num_ports({n:?},{dir:?}) = {}, but {} ports",
                g.num_ports(*n, dir),
                list.len()
            );
            let offs = drain(g.port_offsets(*n, dir), "port_offsets")?;
            let want: Vec<_> = (0..list.len())
                .map(|k| PortOffset::<G::PortOffsetBase>::new(dir, k))
                .collect();
            ensure!(offs == want, "port_offsets({n:?},{dir:?}) = {offs:?}");
            all_offs.extend(want);
            let beyond = PortOffset::<G::PortOffsetBase>::new(dir, list.len());
            ensure!(
                g.port_index(*n, beyond).is_none(),
                "port_index({n:?}, {beyond:?}) exists beyond the last port"
            );
            for k in 0..=list.len() {
                let got = if dir == Direction::Incoming { g.input(*n, k) } else { g.output(*n, k) };
                ensure!(
                    got.map(|p| p.index()) == list.get(k).copied(),
                    "input/output({n:?},{k}) {dir:?} = {got:?}"
                );
            }
            *clauses += 6;
        }
        ensure!(g.num_inputs(*n) == ns.ins.len() && g.num_outputs(*n) == ns.outs.len(), "num_inputs/num_outputs of {n:?}");
        let io: Vec<_> = g.input_offsets(*n).chain(g.output_offsets(*n)).collect();
        ensure!(io == all_offs, "input_offsets/output_offsets of {n:?}");
        let aoff = drain(g.all_port_offsets(*n), "all_port_offsets")?;
        ensure!(aoff == all_offs, "all_port_offsets({n:?}) = {aoff:?}");
        let aports = drain(g.all_ports(*n), "all_ports")?;
        ensure!(
            aports.iter().map(|p| p.index()).eq(ns.all()),
            "all_ports({n:?}) = {aports:?}"
        );
        ensure!(
            g.node_port_capacity(*n) >= ns.ins.len() + ns.outs.len(),
            "node_port_capacity({n:?}) = {} below the number of ports",
            g.node_port_capacity(*n)
        );
        // links / neighbours
        let mut per_dir = vec![];
        for dir in Direction::BOTH {
            let list = if dir == Direction::Incoming { &ns.ins } else { &ns.outs };
            let mut want: Vec<(Sub, Sub)> = vec![];
            for p in list {
                want.extend(s.port_links(*p).iter().copied());
            }
            let got: Vec<_> = drain(g.links(*n, dir), "links")?
                .iter()
                .map(|(a, b)| (a.key(), b.key()))
                .collect();
            ensure!(got == want, "links({n:?},{dir:?}) = {got:?}, expected {want:?}");
            let sugar: Vec<_> = if dir == Direction::Incoming {
                g.input_links(*n).map(|(a, b)| (a.key(), b.key())).collect()
            } else {
                g.output_links(*n).map(|(a, b)| (a.key(), b.key())).collect::<Vec<_>>()
            };
            ensure!(sugar == want, "input_links/output_links({n:?}) disagree with links");
            let neigh: Vec<_> = drain(g.neighbours(*n, dir), "neighbours")?;
            let wantn: Vec<_> = want.iter().map(|(_, b)| ni(s.ports[&b.0].0)).collect();
            ensure!(
                neigh == wantn,
                "neighbours({n:?},{dir:?}) = {neigh:?}, expected {wantn:?}"
            );
            let sugar: Vec<_> = if dir == Direction::Incoming {
                g.input_neighbours(*n).collect()
            } else {
                g.output_neighbours(*n).collect::<Vec<_>>()
            };
            ensure!(sugar == wantn, "input/output_neighbours({n:?}) disagree");
            per_dir.push(want);
            *clauses += 4;
        }
        let mut want: Vec<(Sub, Sub)> = per_dir[0]
            .iter()
            .filter(|(_, b)| s.ports[&b.0].0 != n.index())
            .copied()
            .collect();
        want.extend(per_dir[1].iter().copied());
        let got: Vec<_> = drain(g.all_links(*n), "all_links")?
            .iter()
            .map(|(a, b)| (a.key(), b.key()))
            .collect();
        ensure!(got == want, "all_links({n:?}) = {got:?}, expected {want:?}");
        let neigh: Vec<_> = drain(g.all_neighbours(*n), "all_neighbours")?;
        let wantn: Vec<_> = want.iter().map(|(_, b)| ni(s.ports[&b.0].0)).collect();
        ensure!(neigh == wantn, "all_neighbours({n:?}) = {neigh:?}, expected {wantn:?}");
        *clauses += 7;
    }
    if nodes.len() <= o.pairs {
        for a in nodes {
            for b in nodes {
                let mut want = vec![];
                for p in &s.nodes[&a.index()].outs {
                    for (x, y) in s.port_links(*p) {
                        if s.ports[&y.0].0 == b.index() {
                            want.push((*x, *y));
                        }
                    }
                }
                let got: Vec<_> = drain(g.get_connections(*a, *b), "get_connections")?
                    .iter()
                    .map(|(x, y)| (x.key(), y.key()))
                    .collect();
                ensure!(
                    got == want,
                    "get_connections({a:?},{b:?}) = {got:?}, expected {want:?}"
                );
                ensure!(
                    g.get_connection(*a, *b).map(|(x, y)| (x.key(), y.key())) == want.first().copied(),
                    "get_connection({a:?},{b:?})"
                );
                ensure!(
                    g.connected(*a, *b) != want.is_empty(),
                    "connected({a:?},{b:?}) = {}",
                    g.connected(*a, *b)
                );
                *clauses += 3;
            }
        }
    }
    // Absent nodes and ports.
    absent_clauses(g, s, max_node, max_port, clauses)
}

fn absent_clauses<G>(g: &G, s: &Snap, max_node: usize, max_port: usize, clauses: &mut u64) -> Result<(), String>
where
    G: PortView,
    G::PortOffsetBase: Unsigned,
{
    for i in (0..max_node + 3).chain([1 << 20, (1 << 31) - 2]) {
        if s.nodes.contains_key(&i) {
            continue;
        }
        ensure!(!g.contains_node(ni(i)), "contains_node({i}) for an absent node");
        *clauses += 1;
    }
    for p in (0..max_port + 3).chain([1 << 20, (1 << 31) - 2]) {
        if s.ports.contains_key(&p) {
            continue;
        }
        ensure!(!g.contains_port(pi(p)), "contains_port({p}) for an absent port");
        *clauses += 1;
    }
    Ok(())
}

/// Additional clauses for graphs that own their index space (not views/multigraphs
/// with hidden nodes): lookups on absent keys are empty.
pub fn absent_lookups<G: LinkView>(g: &G, s: &Snap, clauses: &mut u64) -> Result<(), String>
where
    G::LinkEndpoint: Ep,
{
    let max_node = s.nodes.keys().next_back().copied().unwrap_or(0);
    let max_port = s.ports.keys().next_back().copied().unwrap_or(0);
    for i in (0..max_node + 3).chain([1 << 20, (1 << 31) - 2]) {
        if s.nodes.contains_key(&i) {
            continue;
        }
        let n = ni(i);
        for d in Direction::BOTH {
            ensure!(g.num_ports(n, d) == 0, "num_ports of absent node {i}");
            ensure!(g.ports(n, d).next().is_none(), "ports of absent node {i}");
            ensure!(g.port_offsets(n, d).next().is_none(), "port_offsets of absent node {i}");
            ensure!(g.port_index(n, PortOffset::new(d, 0)).is_none(), "port_index of absent node {i}");
            ensure!(g.links(n, d).next().is_none(), "links of absent node {i}");
            ensure!(g.neighbours(n, d).next().is_none(), "neighbours of absent node {i}");
        }
        ensure!(g.all_ports(n).next().is_none(), "all_ports of absent node {i}");
        ensure!(g.all_links(n).next().is_none(), "all_links of absent node {i}");
        ensure!(g.all_neighbours(n).next().is_none(), "all_neighbours of absent node {i}");
        ensure!(g.node_port_capacity(n) == 0, "node_port_capacity of absent node {i}");
        *clauses += 16;
    }
    for p in (0..max_port + 3).chain([1 << 20, (1 << 31) - 2]) {
        if s.ports.contains_key(&p) {
            continue;
        }
        ensure!(g.port_node(pi(p)).is_none(), "port_node of absent port {p}");
        ensure!(g.port_direction(pi(p)).is_none(), "port_direction of absent port {p}");
        ensure!(g.port_offset(pi(p)).is_none(), "port_offset of absent port {p}");
        *clauses += 3;
    }
    Ok(())
}
