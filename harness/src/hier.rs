//! Executable contracts of `Hierarchy`.
use crate::core::ni;
use crate::engine::*;
use ::portgraph::hierarchy::AttachError;
use ::portgraph::{Hierarchy, NodeIndex};
use std::collections::{BTreeMap, VecDeque};

/// The forest a hierarchy stands for.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Forest {
    pub parent: BTreeMap<usize, usize>,
    pub children: BTreeMap<usize, Vec<usize>>,
}

impl Forest {
    pub fn kids(&self, n: usize) -> &[usize] {
        self.children.get(&n).map_or(&[], |v| v.as_slice())
    }
    pub fn in_subtree(&self, root: usize, mut n: usize) -> bool {
        loop {
            if n == root {
                return true;
            }
            match self.parent.get(&n) {
                Some(p) => n = *p,
                None => return false,
            }
        }
    }
    pub fn attach(&mut self, n: usize, p: usize, at: usize) {
        self.parent.insert(n, p);
        self.children.entry(p).or_default().insert(at, n);
    }
    pub fn detach(&mut self, n: usize) -> Option<usize> {
        let p = self.parent.remove(&n)?;
        let v = self.children.get_mut(&p).unwrap();
        v.retain(|x| *x != n);
        if v.is_empty() {
            self.children.remove(&p);
        }
        Some(p)
    }
    pub fn detach_children(&mut self, n: usize) {
        for c in self.children.remove(&n).unwrap_or_default() {
            self.parent.remove(&c);
        }
    }
    pub fn rename(&self, f: impl Fn(usize) -> usize) -> Forest {
        Forest {
            parent: self.parent.iter().map(|(a, b)| (f(*a), f(*b))).collect(),
            children: self.children.iter().map(|(a, b)| (f(*a), b.iter().map(|x| f(*x)).collect())).collect(),
        }
    }
    pub fn bfs(&self, n: usize) -> Vec<usize> {
        let mut q: VecDeque<usize> = [n].into();
        let mut out = vec![];
        while let Some(x) = q.pop_front() {
            out.push(x);
            q.extend(self.kids(x));
        }
        out
    }
}

fn ix(o: Option<NodeIndex>) -> Option<usize> {
    o.map(|n| n.index())
}

/// Checks every query of the hierarchy against the forest.
pub fn check(h: &Hierarchy, f: &Forest, upto: usize, cl: &mut u64) -> R {
    for n in 0..upto {
        let x = ni(n);
        let kids = f.kids(n);
        ensure!(ix(h.parent(x)) == f.parent.get(&n).copied(), "parent({n}) = {:?}, expected {:?}", h.parent(x), f.parent.get(&n));
        ensure!(h.is_root(x) == !f.parent.contains_key(&n), "is_root({n}) = {}", h.is_root(x));
        ensure!(h.child_count(x) == kids.len(), "child_count({n}) = {}, children are {kids:?}", h.child_count(x));
        ensure!(h.has_children(x) == !kids.is_empty(), "has_children({n}) = {}", h.has_children(x));
        ensure!(ix(h.first(x)) == kids.first().copied(), "first({n}) = {:?}, children are {kids:?}", h.first(x));
        ensure!(ix(h.last(x)) == kids.last().copied(), "last({n}) = {:?}, children are {kids:?}", h.last(x));
        let (mut pr, mut nx) = (None, None);
        if let Some(p) = f.parent.get(&n) {
            let s = f.kids(*p);
            let i = s.iter().position(|y| *y == n).unwrap();
            pr = i.checked_sub(1).map(|j| s[j]);
            nx = s.get(i + 1).copied();
        }
        ensure!(ix(h.next(x)) == nx, "next({n}) = {:?}, expected {nx:?}", h.next(x));
        ensure!(ix(h.prev(x)) == pr, "prev({n}) = {:?}, expected {pr:?}", h.prev(x));
        let fw: Vec<usize> = no_panic(|| h.children(x).take(kids.len() + 3).map(|y| y.index()).collect()).map_err(|e| format!("children({n}) {e}"))?;
        ensure!(fw == kids, "children({n}) yields {fw:?}, expected {kids:?}");
        let mut bw: Vec<usize> = no_panic(|| h.children(x).rev().take(kids.len() + 3).map(|y| y.index()).collect()).map_err(|e| format!("children({n}).rev() {e}"))?;
        bw.reverse();
        ensure!(bw == kids, "children({n}).rev() yields {bw:?} (reversed), expected {kids:?}");
        // alternate both ends
        let mut it = h.children(x);
        let (mut a, mut b) = (vec![], vec![]);
        let mut left = kids.len();
        ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "children({n}).len() = {}", it.len());
        while left > 0 {
            if left % 2 == 0 {
                a.push(ix(it.next()));
            } else {
                b.push(ix(it.next_back()));
            }
            left -= 1;
            ensure!(it.len() == left, "children({n}).len() = {} with {left} left", it.len());
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "children({n}) yields more than its length");
        b.reverse();
        a.extend(b);
        let want: Vec<Option<usize>> = kids.iter().map(|k| Some(*k)).collect();
        ensure!(a == want, "children({n}) consumed from both ends yields {a:?}, expected {want:?}");
        let want = f.bfs(n);
        let mut d = h.descendants(x);
        let mut got = vec![];
        while got.len() < upto + 3 {
            let (lo, hi) = d.size_hint();
            let rem = want.len().saturating_sub(got.len());
            ensure!(lo <= rem && hi.map_or(true, |h| h >= rem), "descendants({n}).size_hint() = {:?} with {rem} left", (lo, hi));
            match d.next() {
                Some(y) => got.push(y.index()),
                None => break,
            }
        }
        ensure!(got == want, "descendants({n}) yields {got:?}, expected {want:?}");
        *cl += 15;
    }
    Ok(())
}

pub struct Hist {
    pub h: Hierarchy,
    pub f: Forest,
    pub n: usize,
    pub cl: u64,
}

impl Hist {
    pub fn new(n: usize, cap: bool) -> Self {
        Hist { h: if cap { Hierarchy::with_capacity(n) } else { Hierarchy::new() }, f: Forest::default(), n, cl: 0 }
    }
    pub fn check(&mut self) -> R {
        check(&self.h, &self.f, self.n + 2, &mut self.cl)
    }
    pub fn attach(&mut self, c: &mut Ctx, k: usize, n: usize, m: usize) -> R {
        let name = ["push_child", "push_front_child", "insert_before", "insert_after"][k];
        c.t(|| format!("{name}({n},{m})"));
        let mut ok: Vec<AttachError> = vec![];
        if self.f.parent.contains_key(&n) {
            ok.push(AttachError::AlreadyAttached { node: ni(n) });
        }
        let parent = if k < 2 { Some(m) } else { self.f.parent.get(&m).copied() };
        match parent {
            None => ok.push(AttachError::RootSibling { root: ni(m) }),
            Some(p) => {
                if self.f.in_subtree(n, p) {
                    ok.push(AttachError::Cycle { node: ni(n), parent: ni(p) });
                }
            }
        }
        let h = &mut self.h;
        let r = no_panic(|| match k {
            0 => h.push_child(ni(n), ni(m)),
            1 => h.push_front_child(ni(n), ni(m)),
            2 => h.insert_before(ni(n), ni(m)),
            _ => h.insert_after(ni(n), ni(m)),
        })
        .map_err(|e| format!("{name}({n},{m}) {e}"))?;
        match r {
            Err(e) => {
                ensure!(ok.contains(&e), "{name}({n},{m}) failed with {e:?}; applicable errors: {ok:?}");
                c.label("attach-error");
            }
            Ok(()) => {
                ensure!(ok.is_empty(), "{name}({n},{m}) succeeded although {ok:?}");
                let p = parent.unwrap();
                let at = match k {
                    0 => self.f.kids(p).len(),
                    1 => 0,
                    2 => self.f.kids(p).iter().position(|x| *x == m).unwrap(),
                    _ => self.f.kids(p).iter().position(|x| *x == m).unwrap() + 1,
                };
                self.f.attach(n, p, at);
                c.label("attach");
            }
        }
        self.check().map_err(|e| format!("after {name}({n},{m}): {e}"))
    }
    pub fn step(&mut self, c: &mut Ctx, w: &[usize]) -> R {
        let n = c.below(self.n);
        let m = c.below(self.n);
        match c.weighted(w) {
            0 => {
                let k = c.below(4);
                // favour successful insertions
                let n = if c.chance(3) { n } else { (0..self.n).map(|i| (n + i) % self.n).find(|i| !self.f.parent.contains_key(i)).unwrap_or(n) };
                let m = if k >= 2 && !c.chance(6) { (0..self.n).map(|i| (m + i) % self.n).find(|i| self.f.parent.contains_key(i)).unwrap_or(m) } else { m };
                return self.attach(c, k, n, m);
            }
            1 => {
                c.t(|| format!("detach({n})"));
                let r = ix(self.h.detach(ni(n)));
                let want = self.f.detach(n);
                ensure!(r == want, "detach({n}) = {r:?}, expected {want:?}");
                c.label("detach");
            }
            2 => {
                c.t(|| format!("detach_children({n})"));
                self.h.detach_children(ni(n));
                self.f.detach_children(n);
                c.label("detach_children");
            }
            3 => {
                c.t(|| format!("remove({n})"));
                self.h.remove(ni(n));
                self.f.detach(n);
                self.f.detach_children(n);
                c.label("remove");
            }
            4 => {
                c.t(|| format!("swap_nodes({n},{m})"));
                no_panic(|| self.h.swap_nodes(ni(n), ni(m))).map_err(|e| format!("swap_nodes({n},{m}) {e}"))?;
                self.f = self.f.rename(|x| if x == n { m } else if x == m { n } else { x });
                c.label("swap");
            }
            5 => {
                let free = |x: usize, f: &Forest| !f.parent.contains_key(&x) && f.kids(x).is_empty();
                let m = if c.chance(8) { m } else { (0..self.n).map(|i| (m + i) % self.n).find(|i| free(*i, &self.f)).unwrap_or(m) };
                c.t(|| format!("rekey({n},{m})"));
                let ok = free(m, &self.f) || n == m;
                if !ok {
                    // documented panic, on a copy
                    let mut h2 = self.h.clone();
                    ensure!(no_panic(move || h2.rekey(ni(n), ni(m))).is_err(), "rekey({n},{m}) into an occupied slot did not panic");
                    c.label("rekey-occupied");
                    return Ok(());
                }
                no_panic(|| self.h.rekey(ni(n), ni(m))).map_err(|e| format!("rekey({n},{m}) {e}"))?;
                self.f = self.f.rename(|x| if x == n { m } else { x });
                c.label("rekey");
            }
            6 => {
                c.t(|| format!("shrink_to({n})"));
                self.h.shrink_to(n);
                for x in n..self.n {
                    self.f.detach(x);
                    self.f.detach_children(x);
                }
                c.label("shrink_to");
            }
            _ => match c.below(3) {
                0 => {
                    c.t(|| format!("ensure_capacity({n})"));
                    self.h.ensure_capacity(n)
                }
                1 => {
                    c.t(|| "clone".into());
                    let h = self.h.clone();
                    ensure!(h == self.h, "clone differs");
                    self.h = h;
                }
                _ => {
                    c.t(|| "serde round trip".into());
                    let bytes = serde_json::to_vec(&self.h).map_err(|e| e.to_string())?;
                    let h: Hierarchy = serde_json::from_slice(&bytes).map_err(|e| e.to_string())?;
                    ensure!(h == self.h, "deserialized hierarchy differs from the original");
                    self.h = h;
                }
            },
        }
        let last = c.last().to_string();
        self.check().map_err(|e| format!("after {last}: {e}"))
    }
}

fn history(c: &mut Ctx, w: &[usize]) -> R {
    let n = 1 + c.below(9);
    let cap = c.flip();
    let mut h = Hist::new(n, cap);
    for _ in 0..2 + c.below(30) {
        h.step(c, w)?;
    }
    c.n(h.cl);
    Ok(())
}
pub fn forest(c: &mut Ctx) -> R {
    history(c, &[12, 2, 1, 1, 0, 0, 0, 1])
}
pub fn moves(c: &mut Ctx) -> R {
    history(c, &[12, 1, 1, 1, 4, 4, 1, 1])
}
/// All histories of up to 4 attachments on 3 nodes followed by one other operation.
pub fn exh(c: &mut Ctx) -> R {
    let mut h = Hist::new(4, false);
    let k = c.below(5);
    for _ in 0..k {
        let (kk, n, m) = (c.below(4), c.below(4), c.below(4));
        h.attach(c, kk, n, m)?;
    }
    h.step(c, &[0, 1, 1, 1, 1, 1, 1, 0])?;
    c.n(h.cl);
    Ok(())
}
