#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that statements stay easy to edit).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("I01","Index and offset encodings are lossless and reject out-of-range values",
 "For every index width, constructing a node index, port index or port offset from an in-range number (and direction) and reading it back gives the same number and direction, distinct values stay distinct, and the reserved 'none' value is never confused with a present one. Values beyond the documented maximum are rejected by an error or a panic, never truncated. Conversions between the optional form, the plain form and integers agree, and directions convert to integers and back without loss.",
 ["inputs","configurations"],"every usize value, both directions, and every supported width (8, 16, 32, 64 bits and usize)",
 "The tests try a handful of constants per width; truncation or bit clashes show only at values next to 2^(w-1), with particular flag combinations.",
 ["src/index.rs","src/lib.rs"],[("BitField::new / index / bit_flag / new_none","src/index.rs"),("index_impls!, maybe_index_impls!","src/index.rs"),("PortOffset","src/index.rs"),("Direction conversions","src/lib.rs")])

p("G01","Adding and removing nodes changes exactly the node concerned",
 "Adding a node returns an index that was not in use and gives it exactly the requested numbers of fresh, unlinked ports; removing a node removes it, its ports and every link touching them, and removing an absent node does nothing. No other node, port or link changes its index, order, direction, owner or link. Indices freed by removals may be reused, but a reused index never carries state of its former owner.",
 ["histories","inputs"],"every sequence of public operations on a port graph (add, remove, link, unlink, resize, swap, compact, clear, reserve) with any arguments",
 "Tests run a few short histories; recycled node slots and port slabs behave differently only after particular sequences of removals and resizes.",
 ["src/portgraph.rs"],[("alloc_node / free_node free list","src/portgraph.rs"),("alloc_ports / free_ports slab lists","src/portgraph.rs"),("add_node / remove_node / clear","src/portgraph.rs")],
 state=[("node_meta, node_free","node slots and the doubly linked list of free ones","src/portgraph.rs"),("port_meta, port_link, port_free","port slots, links, and lists of free slabs","src/portgraph.rs")])

p("G02","Links are one-to-one, symmetric and join opposite directions",
 "At all times every linked port has exactly one partner, the partner points back, the two have opposite directions, and the link count equals the number of linked pairs. Linking two free ports of opposite direction adds exactly that link; unlinking removes exactly the link at the given port and returns the former partner. A rejected link request (unknown port or offset, equal directions, port in use) reports the offending port and leaves the whole graph unchanged.",
 ["histories","inputs"],"every history of public operations, every pair of ports or node/offset pairs, valid or not",
 "Tests check a few links on small graphs; an asymmetric or stale link needs links to the same node, removal of a linked node or a failing request after a partial update.",
 ["src/portgraph.rs","src/view.rs"],[("link_ports / unlink_port","src/portgraph.rs"),("link_nodes / link_offsets / port_link","src/view.rs"),("free_ports disconnects","src/portgraph.rs")])

p("G03","Changing a node's port counts keeps surviving ports, order and links",
 "After changing a node's port counts, the node has exactly the requested numbers of inputs and outputs; the first ports in each direction keep their order and their links, new ports are unlinked, and removed ports are gone with their links. Every surviving port that changed index is reported once as moved with its old and new index, and every removed port once as removed with its former partner, so that replaying the reports on external data keeps it attached to the right ports. Nothing else in the graph changes.",
 ["histories","inputs"],"every reachable graph and every pair of new counts, growing or shrinking either direction, within or beyond the allocated slab, including self-links",
 "Tests sample a few size changes; in-place shifts overlap, reuse slabs and touch self-links only in specific combinations of old and new counts.",
 ["src/portgraph.rs"],[("set_num_ports","src/portgraph.rs"),("resize_ports_inplace","src/portgraph.rs"),("alloc_ports / free_ports","src/portgraph.rs")])

p("G04","Swapping and compacting renumber the graph without changing it",
 "Swapping two node indices exchanges the two nodes with their ports and links and changes nothing else, whichever of the two are in use. Compacting nodes or ports yields the same graph up to renumbering, with the indices in use becoming 0, 1, 2, ... in their old order, and reports for each surviving item its old and new index exactly once. The graph remains fully usable afterwards: later additions, removals and resizes behave as on any other graph.",
 ["histories","inputs"],"every reachable graph with any pattern of holes, followed by any further history",
 "Tests compact one or two fragmented graphs; corruption of free lists or of links between moved ports appears only with particular hole patterns and shows later, when space is reused.",
 ["src/portgraph.rs"],[("swap_nodes","src/portgraph.rs"),("compact_nodes","src/portgraph.rs"),("compact_ports","src/portgraph.rs")])

p("G05","All queries of a graph agree with one another",
 "At every moment the counts, membership tests, owner, direction, offset and index lookups, and the iterators over nodes, ports, offsets, links, connections and neighbours all describe the same graph. Looking a port up by its node and offset and asking a port for its node and offset are inverse, iterators yield each item exactly once in documented order with exact lengths, and reverse iteration yields the reverse sequence. Queries about absent nodes, ports or offsets report absence.",
 ["histories","inputs"],"every reachable graph, every node, port and offset argument present or absent, every interleaving of front and back iteration",
 "Tests compare some queries on some graphs; an inconsistency needs self-links, parallel links, empty nodes, holes or partially consumed iterators.",
 ["src/portgraph.rs","src/portgraph/iter.rs","src/view.rs"],[("PortView / LinkView for PortGraph","src/portgraph.rs"),("Nodes, Ports, NodePorts, NodePortOffsets, NodeLinks, NodeConnections, Neighbours","src/portgraph/iter.rs")])

p("G06","Inserting a graph or view adds an isomorphic copy and nothing else",
 "Inserting another graph (or a view of one) adds exactly one new node per node of the source, with the same port counts, and exactly the source's links between the corresponding ports, and returns the map from source nodes to new nodes. The nodes, ports and links already present are unchanged. If an insertion or an in-place copy is refused, the receiving graph is left as it was.",
 ["histories","inputs"],"every pair of reachable receiver and source graphs (plain, multi and view) and every subset of nodes",
 "Tests insert a couple of small graphs; self-links, parallel links, holes in either index space and refused copies are not exercised systematically.",
 ["src/view.rs","src/portgraph.rs","src/multiportgraph.rs","src/view/subgraph.rs"],[("insert_graph","src/view.rs"),("copy_in_parent","src/view/subgraph.rs")])

p("G07","Sizes beyond the representable limits are refused, never wrapped",
 "A request whose node index, port index, port offset or per-node port count cannot be represented by the graph's index types panics or fails as documented before anything is changed silently; it never wraps around, aliases another port or corrupts the graph. Every request within the limits succeeds and gives exactly the requested sizes.",
 ["inputs","configurations"],"every requested port count and offset, for every offset width, for creation and resizing",
 "The limits (2^7-1, 2^15-1, 2^16-1 ports) are not approached by the tests, and combinations of incoming, outgoing and spare capacity around them are many.",
 ["src/portgraph.rs","src/index.rs"],[("assert_port_counts, NodeMeta::new","src/portgraph.rs"),("target_capacity in set_num_ports","src/portgraph.rs"),("BitField::new range check","src/index.rs")])

p("M01","A multigraph's links form a multiset joined through distinct subports",
 "In a multigraph any number of links may join two ports of opposite direction; linking adds exactly one link and returns its two endpoints, unlinking a subport removes exactly that link and unlinking a port exactly one of its links, and a refused request leaves the multigraph unchanged. Each link occupies one subport at each end, a subport carries at most one link, and following a subport's link there and back returns to it. The link count equals the number of links enumerated.",
 ["histories","inputs"],"every history of public multigraph operations and every subport argument",
 "Tests build a few multiports; the helper structure is created, reused and removed along many different paths depending on which end has several links and in which order they go.",
 ["src/multiportgraph.rs","src/multiportgraph/iter.rs"],[("link_ports / unlink_port / unlink_subport","src/multiportgraph.rs"),("subport_link / port_links","src/multiportgraph.rs"),("SubportIndex","src/multiportgraph.rs")],
 state=[("multiport, copy_node, subport_offset tables","helper nodes standing for extra links","src/multiportgraph.rs")])

p("M02","A multigraph's helper structure is never visible",
 "Nodes, ports, neighbours and counts seen through a multigraph are exactly those the user created, whatever helper structure extra links need. Adding, removing, resizing, swapping and compacting behave as on a plain graph whose ports may carry several links: only the items concerned change, callbacks report only user nodes and ports, and links follow their ports. Converting from a plain graph or back preserves nodes, ports and links.",
 ["histories","inputs"],"every history mixing link, unlink, add, remove, resize, swap and compact on multigraphs",
 "Helper nodes share the index space with user nodes, so each structural operation has cases that arise only when helper nodes sit in particular slots.",
 ["src/multiportgraph.rs","src/multiportgraph/iter.rs"],[("remove_node, set_num_ports, swap_nodes, compact_nodes, compact_ports","src/multiportgraph.rs"),("remove_copy_node, free_multiport","src/multiportgraph.rs"),("Nodes, Ports iterators","src/multiportgraph/iter.rs")])

p("H01","The hierarchy is always an ordered forest",
 "Each node has at most one parent, no node is its own ancestor, and the parent, first/last child, previous/next sibling, child count and iterator queries all describe the same ordered forest. Attaching puts a root node exactly at the requested place (first, last, before or after a sibling); an attachment that would create a cycle, re-attach an attached node or use a root as a sibling is refused and changes nothing. Descendant iteration visits the node and each descendant once, in breadth-first order.",
 ["histories","inputs"],"every history of hierarchy operations and every pair of node arguments, present or never seen",
 "Tests build a few trees; broken sibling or parent pointers need particular positions (only child, first, last, middle) combined with cycles of length one or more.",
 ["src/hierarchy.rs"],[("push_child, push_front_child, insert_before, insert_after","src/hierarchy.rs"),("cycle_check","src/hierarchy.rs"),("Children, Descendants","src/hierarchy.rs")],
 state=[("NodeData","parent, first/last child, siblings, count","src/hierarchy.rs")])

p("H02","Detaching, moving and renumbering keep the rest of the hierarchy",
 "Detaching a node removes it from its parent's children keeping the order of the others, and keeps its own children; detaching children or removing a node frees exactly the nodes concerned. Renumbering a node or swapping two nodes yields the same forest with the indices exchanged, even if one is the parent, child or sibling of the other. Shrinking disconnects exactly the nodes beyond the new capacity.",
 ["histories","inputs"],"every history of hierarchy operations, with every relationship between the nodes involved",
 "Neighbouring siblings, parent and child, and only children each need different pointer updates; tests cover a few of these combinations.",
 ["src/hierarchy.rs"],[("detach, detach_children, remove","src/hierarchy.rs"),("rekey, swap_nodes, rekey_in_*","src/hierarchy.rs"),("shrink_to","src/hierarchy.rs")])

p("S01","Secondary maps behave as total maps with a default",
 "A secondary map returns, for every key, the last value stored under it, or its default if there is none; storing, taking, moving (rekeying) and swapping keys affect exactly the keys named. Growing and shrinking the capacity never change a value below the new capacity, and a key beyond it reads as the default. All provided implementations behave alike.",
 ["histories","inputs"],"every history of set, take, rekey, swap, resize, shrink and mutable access over any keys, for each provided implementation",
 "Tests set and read a few keys; differences show only for keys around the capacity, moves onto themselves, swaps with unset keys and non-zero defaults.",
 ["src/secondary.rs","src/unmanaged.rs"],[("SecondaryMap for BitVec, HashSet, HashMap-like","src/secondary.rs"),("UnmanagedDenseMap","src/unmanaged.rs")])

p("S02","Data attached to nodes and ports follows them through renumbering",
 "If weights and a hierarchy are kept in step with a graph by passing on the reports of resizing, compaction and swaps, then every surviving node and port keeps its own data, and items added later do not inherit data of removed ones once it was cleared. This holds for plain and multigraphs alike.",
 ["histories"],"every history of structural operations interleaved with writes of weights",
 "The end-to-end guarantee depends on the order in which moves are reported: a report order that overwrites a slot before it is read loses data only for particular shifts.",
 ["src/weights.rs","src/unmanaged.rs","src/portgraph.rs","src/multiportgraph.rs","src/hierarchy.rs"],[("rekey callbacks","src/portgraph.rs"),("Weights, UnmanagedDenseMap::rekey","src/unmanaged.rs")])

p("V01","A filtered view shows exactly the selected part of the graph",
 "A view filtered by node and link predicates contains exactly the accepted nodes, all ports of those nodes, and exactly the links accepted whose two ends lie on accepted nodes. Every query of the view (counts, iterators, links, neighbours, subports) agrees with that restricted graph, and the underlying graph is not changed.",
 ["inputs","configurations"],"every graph (plain or multi, or another view) and every pair of predicates",
 "Each query is implemented separately; tests compare a few of them for one filter.",
 ["src/view/filter.rs","src/view/refs.rs"],[("FilteredGraph","src/view/filter.rs"),("forwarding impls","src/view/refs.rs")])

p("V02","Region views show exactly the children or descendants of the root",
 "A flat region contains exactly the children of its root (with the root itself if requested), and a region the root and all its descendants, in the current hierarchy. The ports and links seen are those of the contained nodes, links leaving the region being hidden, and all queries of the view agree. The answers do not depend on the order in which queries are made.",
 ["inputs","histories"],"every graph, hierarchy and root, and every order of queries (regions remember earlier answers)",
 "Tests query one small hierarchy in one order; the memory of earlier answers and the separately written queries can disagree on deeper hierarchies.",
 ["src/view/flat_region.rs","src/view/region.rs"],[("FlatRegion","src/view/flat_region.rs"),("Region::is_descendant cache","src/view/region.rs")])

p("V03","Subgraph views and their boundaries describe the same cut",
 "A subgraph built from a set of nodes contains exactly those nodes and the links among them, and its boundary lists exactly the ports whose links leave the set, in the documented order. A subgraph built from a boundary contains exactly the nodes enclosed by the boundary's ports. Copying a subgraph inside its parent adds an isomorphic copy wired as documented, or is refused and changes nothing.",
 ["inputs"],"every graph (plain or multi), every node set, and every boundary, including the empty one and self-links",
 "Tests use two or three hand-made cuts; parallel links, self-links, disconnected sets and mixed boundary links are not sampled.",
 ["src/view/subgraph.rs","src/boundary.rs"],[("Subgraph::with_nodes, new_subgraph, copy_in_parent","src/view/subgraph.rs"),("Boundary::from_nodes, internal_nodes","src/boundary.rs")])

p("V04","Boundary reachability between ports is exact",
 "For a boundary of an acyclic part of a graph, the derived ordering says that an input reaches an output exactly when a directed path inside the part leads from the one to the other. Comparing two orderings reports exactly the pairs related in the one and not in the other.",
 ["inputs"],"every acyclic graph, every cut and every pair of boundary ports",
 "Reachability is computed by merging sets along a traversal; tests sample a few graphs without reconvergent or skipping paths.",
 ["src/boundary.rs"],[("Boundary::port_ordering, is_stronger_than, missing_pairs","src/boundary.rs")])

p("A01","Topological traversal yields each node once, after its predecessors",
 "A topological traversal yields every node reachable from the given sources through accepted nodes and links, whose predecessors are all yielded too, exactly once and after all of them; in an acyclic graph started from all its sources that is every node. Nodes in or behind cycles are left out, and the traversal always ends. Running it against the direction of the links gives the same guarantee mirrored. The sources given are distinct nodes and count as ready whatever links enter them, and so does every node with at least one port that is added as a source while the traversal runs, unless it was yielded before; a filter accepts or rejects a link at both of its ports alike.",
 ["inputs","configurations"],"every graph, source set, direction and pair of filters, cyclic or not",
 "Tests run a handful of graphs; reconvergent paths, unlinked ports, parallel links and filtered predecessors decide the outcome.",
 ["src/algorithms/toposort.rs"],[("TopoSort, toposort, toposort_filtered","src/algorithms/toposort.rs")])

p("A02","Post-order traversal yields each reachable node once, children first",
 "A post-order traversal yields exactly the nodes reachable from the given roots in the chosen direction through accepted nodes and links, each once. In the acyclic part every node comes after all nodes reachable from it, and the traversal always ends on cyclic graphs.",
 ["inputs","configurations"],"every graph, root set, direction and pair of filters",
 "Tests check one or two fixed orders on small graphs.",
 ["src/algorithms/post_order.rs"],[("PostOrder, postorder, postorder_filtered","src/algorithms/post_order.rs")])

p("A03","Immediate dominators are exact",
 "For every node reachable from the entry, the reported immediate dominator is the closest other node through which every path from the entry passes; the entry and unreachable nodes have none. The answer depends only on the part of the graph that the filters accept, in the chosen direction.",
 ["inputs","configurations"],"every graph, entry node, direction and pair of filters, cyclic or not",
 "The iterative scheme goes wrong only on irreducible or partly unreachable graphs, which the tests do not contain.",
 ["src/algorithms/dominators.rs"],[("dominators, dominators_filtered","src/algorithms/dominators.rs")])

p("A04","Lowest common ancestors are exact",
 "For every two nodes of the hierarchy the query returns the deepest node that is an ancestor of both (a node counting as its own ancestor), or none if they lie in different trees. The answer is symmetric and reflects the hierarchy the structure was built from.",
 ["inputs"],"every graph, hierarchy and pair of nodes",
 "Jump pointers matter only from depth three on and for unbalanced trees; the tests use small trees.",
 ["src/algorithms/lca.rs"],[("LCA::new, LCA::lca","src/algorithms/lca.rs")])

p("A05","Convexity checkers decide convexity exactly",
 "For an acyclic graph, a set of nodes (or a subgraph given by its boundary) is reported convex exactly when no directed path leaves it and comes back, and, with a boundary given, no path runs from one of its outputs back to one of its inputs. The checker based on a topological order and the one based on lines give the same answer, whatever topological order was used.",
 ["inputs","configurations"],"every acyclic graph and every node set or boundary",
 "The checks cut the search off by topological position; a wrong cut-off shows only for particular positions of the outside path.",
 ["src/algorithms/convex.rs","src/algorithms/convex"],[("TopoConvexChecker","src/algorithms/convex.rs"),("LineConvexChecker","src/algorithms/convex")])

p("A06","The dynamic topological order stays correct under edits",
 "While a graph is edited through the dynamic checker, the maintained order stays a topological order of the current graph; a link that would close a cycle is refused and changes nothing, and every other link is accepted. Convexity answers given between edits are those of the current graph.",
 ["histories"],"every history of node and link additions and removals, and every query between them",
 "The order is repaired locally after each link; a wrong repair shows only after several insertions against the current order.",
 ["src/algorithms/dynamic.rs"],[("DynamicTopoSort","src/algorithms/dynamic.rs"),("DynamicTopoConvexChecker","src/algorithms/dynamic.rs")])

p("C01","Serialising and reading back gives an equal graph",
 "Writing a graph, multigraph, hierarchy, index or weights to a serialised form and reading it back gives a value equal to the original under every query, including after holes have been left by removals. The restored value behaves like the original under all further operations.",
 ["histories","inputs"],"every reachable value of the serialisable types",
 "Tests round-trip a couple of values; the encoding of free slots and of the reserved 'none' value matters only for fragmented graphs.",
 ["src/portgraph.rs","src/multiportgraph.rs","src/hierarchy.rs","src/index.rs","src/unmanaged.rs","src/weights.rs"],[("serde impls and derives","src/index.rs")])

p("C02","The petgraph adaptor presents the same graph",
 "Through the adaptor traits, the nodes, edges, neighbours in either direction, adjacency tests, counts and index conversions are those of the underlying graph, so that a petgraph algorithm sees exactly its nodes and links. Index bounds and visit maps cover every node of the graph, even when indices in use have holes.",
 ["inputs","histories"],"every reachable graph, and views where the adaptor supports them",
 "Tests check the adaptor on freshly built graphs without holes.",
 ["src/view/petgraph.rs"],[("petgraph trait impls","src/view/petgraph.rs")])

p("R01","Rendering shows exactly the nodes, ports and links of the graph",
 "The textual renderings name every node once, every link once between the right nodes, and nest nodes as the hierarchy does.",
 ["inputs"],"every graph, hierarchy and weight assignment",
 "Tests compare four snapshots.",
 ["src/render.rs","src/render/dot.rs","src/render/mermaid.rs"],[("dot_string, mermaid_string","src/render")])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
