use portgraph::view::{Region, PortView};
use portgraph::{Hierarchy, PortGraph, PortMut};
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let mut g: PortGraph = PortGraph::new();
    let root = g.add_node(0, 0);
    let mut h = Hierarchy::new();
    let mut chain = vec![root];
    for _ in 0..300_000 {
        let n = g.add_node(0, 0);
        h.push_child(n, *chain.last().unwrap()).unwrap();
        chain.push(n);
    }
    let child = chain[1];
    let mut bad = 0;
    for _ in 0..50 {
        let region = Region::new(&g, &h, root);
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            s.spawn(|| { region.contains_node(*chain.last().unwrap()); stop.store(true, Ordering::SeqCst); });
            while !stop.load(Ordering::SeqCst) {
                let c = region.clone();
                if !c.contains_node(child) { bad += 1; break; }
            }
        });
    }
    println!("clones that lost their descendants: {bad}/50");
    std::process::exit((bad > 0) as i32);
}
