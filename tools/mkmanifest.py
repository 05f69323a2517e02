#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json
T="Verus contracts on functions extracted from /repo at every run, with bounded contract replay on the compiled crate"
# property: (level, level_note)
BOUNDED="no function of this property is under a discharged contract yet; its contract is replayed within stated bounds on the compiled crate (bounded stand-in, not counted as proved)"
C={
 "G01":("proof","alloc_node, free_node, alloc_ports, free_ports, add_node, remove_node, clear, new, with_capacity and reserve are proved for all inputs against the representation invariant; iterators and multi-operation histories are replayed within the stated bounds"),
 "G02":("proof","link_ports, link_offsets, link_nodes, unlink_port, the link part of free_ports and the link, neighbour and connection iterators (both directions) are proved for all inputs; histories are also replayed within bounds"),
 "G03":("proof","set_num_ports (both the in-place and the reallocating path), resize_ports_inplace, shrink_to_fit and everything they call are proved for all inputs, with the exact callback sequence; long histories are also replayed within bounds"),
 "G04":("proof","swap_nodes, compact_nodes and compact_ports are proved, with the exact callback sequence; multi-operation histories are also replayed within bounds"),
 "G05":("proof","the PortView and LinkView queries on PortGraph and all its iterators (nodes, ports, offsets, links, neighbours, connections) are proved for all inputs; combinators of those iterators are replayed within bounds"),
 "G06":("proof","LinkMut::insert_graph is proved for a PortGraph source and a PortGraph target of any size: an isomorphic copy, and nothing else changed; other sources (views, multigraphs) and copy_in_parent are replayed within bounds"),
 "H01":("proof","every function of Hierarchy (attach_*, insert_*, detach*, remove, clear, reserve, shrink_to, swap_nodes, rekey), the queries and the Children and Descendants iterators are proved for all inputs against the forest invariant; histories are also replayed within bounds"),
 "H02":("proof","Hierarchy::rekey, swap_nodes, detach_children and the attach and insert operations are proved to move exactly the named nodes and to keep every other relation; histories are also replayed within bounds"),
 "S01":("proof","the get, get_mut, set, take, remove, clear, reserve, resize, swap and rekey operations of UnmanagedDenseMap and SecondaryMap are proved as a total map with a default; the iterators are replayed within bounds"),
 "I01":("proof","the constructors, accessors and conversions of BitField, NodeIndex, PortIndex, PortOffset and the optional forms are proved at the widths in use; other widths, serde forms and panics are replayed within bounds"),
 "V01":("proof","every query of FilteredGraph that its own code answers (membership, counts, node, port, link, connection and neighbour enumerations, in both filters) is proved for all graphs and filters, for any underlying view that satisfies the view laws, and for PortGraph these laws are proved; filters are assumed to be pure functions; the methods it passes on unchanged and subports are replayed within bounds"),
 "V02":("proof","FlatRegion (membership, counts and every enumeration) and Region's membership and cache (whatever the order of the queries, including clones) are proved for all inputs; Region's own node, port and link enumerations and counts, and subports, are replayed within bounds"),
 "V03":("proof","Subgraph construction from nodes, membership and every enumeration, collect_boundary_ports and Boundary::internal_nodes are proved for all inputs; copy_in_parent, is_convex and subports are replayed within bounds"),
 "V04":("other","Boundary's queries and PortOrdering (construction, queries, missing_pairs) are proved for all inputs; Boundary::port_ordering and the comparison of orderings are decided only by bounded replay (not counted as proved)"),
 "A01":("proof","toposort, toposort_filtered, TopoSort::new, next, ports_remaining and becomes_ready and add_sources are proved for every graph type that satisfies the stated laws of ports and links (discharged for PortGraph), every total secondary map, distinct sources and (pure, link-consistent) filters: no node twice, each yielded node is a source or comes after all nodes with accepted links to it, and the traversal misses no accepted node all of whose predecessors were yielded; size_hint is replayed within bounds"),
 "A02":("proof","postorder, postorder_filtered and PostOrder::next are proved for all graphs, sources, directions and (pure) filters: the nodes yielded are exactly the reachable ones, each once, successors first unless they lead back, and the traversal ends; size_hint is replayed within bounds"),
 "A04":("proof","lca, LCA::new, LCABuilder and every query of LCA are proved for all graphs and roots: the answer is the deepest node that is an ancestor of both, or none; the panics on unknown nodes are replayed within bounds"),
 "A06":("proof","the order maintenance of DynamicTopoSort (add_node, remove_node, swap_nodes, connect_nodes, disconnect_nodes, would_create_cycle, get_order and the searches and reordering under them) is proved for all graphs and histories: an edge is accepted exactly when it closes no cycle, and the positions stay distinct and compatible with every edge; with_graph and the convexity answers of DynamicTopoConvexChecker are replayed within bounds"),
 "M01":("other","SubportIndex, the link state of subports, link_subports, unlink_subport, unlink_port, port_links and the link counts of MultiPortGraph are proved for all inputs; link_ports, the link iterators over nodes and histories are decided only by bounded replay (not counted as proved)"),
 "M02":("other","add_node, swap_nodes, clear, reserve, the node and port membership and counts of MultiPortGraph are proved for all inputs against the invariant on its copy nodes; remove_node, set_num_ports, compaction and conversions are decided only by bounded replay (not counted as proved)"),
 "S02":("other","the operations of Weights and of the maps under it are proved, and the reports of the graph's operations are proved exact (G03, G04); their composition over histories is decided only by bounded replay (not counted as proved)"),
}
for i in "G07 A03 A05 C01 C02".split(): C.setdefault(i,("other",BOUNDED))
NA={
 "R01":"the property constrains text for an external renderer (dot and mermaid syntax); no contract over the string building code within the verifier's reach can state it",
}
P=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[];na=[]
for p in P:
    i=p["id"]
    if i in C:
        l,n=C[i]
        checks.append(dict(property=i,quick_cmd=f"python3 check.py --prop {i} --tier quick",thorough_cmd=f"python3 check.py --prop {i} --tier thorough",technique=T,level=l,level_note=n))
    else:
        na.append(dict(property=i,reason=NA.get(i,"not built yet")))
json.dump(dict(version=1,setup_cmd="bash tools/setup.sh",checks=checks,not_applicable=na),open("/verif/MANIFEST.json","w"),indent=1)
