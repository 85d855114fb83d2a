#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of every property lives here."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Undirected edit history yields exactly the graph it describes",
  "After any sequence of single and bulk vertex/edge additions and removals, loop removal and isolate removal (loops and re-insertions included), an editable undirected graph contains exactly the vertices and edges that the sequence describes: adding an edge creates its missing endpoints, removing a vertex removes its incident edges, adjacency is symmetric. Every single operation returns true exactly when it changed the graph, every bulk or clean-up operation returns exactly the number of elements it added or removed. Vertex count, edge count (a loop counts once), degrees (a loop counts twice; 0 for an absent vertex), degree map, membership, adjacency and neighbour lists (each neighbour once) all agree with that graph after every step.",
  ["histories", "inputs"], "all finite sequences of editing calls over any vertex ids, with queries after every call",
  "The unit tests run three short fixed sequences; redundant counters (degrees, edge count) can drift only on particular histories (loops, re-adding, removing a vertex with a loop, duplicates in a bulk call).",
  ["src/editgraph.rs", "src/graph.rs"],
  [("adjacency map", "neighbour set of every vertex", "src/editgraph.rs struct EditGraph.adj"),
   ("degree map", "redundant degrees", "src/editgraph.rs struct EditGraph.degs"),
   ("m", "redundant edge count", "src/editgraph.rs struct EditGraph.m")],
  [("single edits", "src/editgraph.rs impl MutableGraph for EditGraph"), ("bulk edits, remove_loops, remove_isolates", "src/graph.rs trait MutableGraph")],
  ["MutableGraph methods' return values", "Graph queries on EditGraph"])

p("C02", "Contracting or identifying vertices merges exactly their neighbourhoods",
  "Contracting a set of existing vertices into an existing centre (given as centre plus set, as a sequence whose first element is the centre, or as a pair of distinct vertices) removes exactly the other vertices of the set and makes the centre adjacent to its previous neighbours outside the set plus every vertex outside the set that was adjacent to a removed vertex. No new loop is created, a loop at the centre stays, loops at removed vertices disappear, and the rest of the graph is unchanged, with all counters consistent. Contracting a sequence returns its first element.",
  ["histories", "inputs"], "all graphs (loops allowed), all centres and all vertex sets, also containing the centre or repeated vertices, inside any edit history",
  "Three fixed examples are tested; whether the set contains the centre, is adjacent to it, overlaps it in neighbours, or carries loops decides different paths.",
  ["src/editgraph.rs"], [("adjacency/degree/edge count", "as in C01", "src/editgraph.rs struct EditGraph")],
  [("contract, contract_pair, contract_into", "src/editgraph.rs impl EditGraph")], ["graph queries after the call", "return value of contract"])

p("C03", "Copy, equality, relabelling and disjoint union of undirected graphs",
  "A copy of an undirected graph equals it and evolves independently; two graphs compare equal exactly when they have the same vertices and the same edges, whatever histories produced them; a graph collected from an edge list has exactly those edges and their endpoints. Normalising yields the graph relabelled to 0..n-1 in increasing order of the old ids, together with the map from new to old ids, loops included. The disjoint union keeps the first graph's ids and adds the second graph with every id shifted by the same offset, one more than the first graph's largest id (0 if it is empty), and a sequence of unions folds this from the empty graph.",
  ["histories", "inputs"], "all pairs of graphs (loops, isolated vertices, sparse ids, empty graphs) reached by any edit history",
  "Tests compare graphs on consecutive ids without loops or isolated vertices only.",
  ["src/editgraph.rs"], [], [("PartialEq/Clone/FromIterator", "src/editgraph.rs"), ("disj_union, disj_unions, normalize", "src/editgraph.rs impl EditGraph")],
  ["==, clone, from_iter, normalize, disj_union, disj_unions"])

p("C04", "Named graph generators produce exactly the advertised graph",
  "For every parameter (0 and 1 and empty parts included) the undirected and directed generators for paths, cycles, matchings, stars, cliques, independent sets, bicliques, complete k-partite graphs and grids return exactly the advertised graph on the advertised number of vertices, numbered consecutively from 0 in the documented layout, isolated vertices included. Directed variants orient every edge from the smaller to the larger number (cycles: each vertex to its successor modulo n). A complete k-partite graph joins two vertices exactly when they lie in different parts, for any k.",
  ["inputs", "configurations"], "all generator parameters up to memory limits",
  "Tests only count vertices and edges for a few sizes of the undirected generators; directed generators and degenerate parameters are untested.",
  ["src/editgraph.rs", "src/editdigraph.rs"], [], [("generators", "src/editgraph.rs impl EditGraph; src/editdigraph.rs impl EditDigraph")], ["vertex and edge/arc sets of the result"])

p("C05", "Directed edit history yields exactly the digraph it describes",
  "After any sequence of single and bulk vertex/arc additions and removals, loop removal and isolate removal, an editable digraph contains exactly the vertices and arcs the sequence describes, and removing a vertex removes its incoming and outgoing arcs. Operations return true exactly when they changed the digraph, bulk and clean-up operations return exact counts. Arc count, arc queries, in- and out-neighbours (each once), in-, out- and total degrees (a loop counts once in and once out) and their maps agree after every step, and two vertices are adjacent exactly when an arc joins them in either direction.",
  ["histories", "inputs"], "all finite sequences of editing calls over any vertex ids (antiparallel arcs and loops included)",
  "Tests use one-directional arcs from smaller to larger ids and never query adjacency on a digraph, nor loops with vertex removal.",
  ["src/editdigraph.rs", "src/graph.rs"],
  [("in/out adjacency, in/out degrees, m", "redundant mirrored state", "src/editdigraph.rs struct EditDigraph")],
  [("impl MutableDigraph/Digraph/Graph for EditDigraph", "src/editdigraph.rs"), ("bulk and clean-up defaults", "src/graph.rs trait MutableDigraph")],
  ["MutableDigraph return values", "Digraph and Graph queries"])

p("C06", "Copy, equality, relabelling and union of digraphs preserve arc directions",
  "A copy of a digraph equals it and evolves independently, and two digraphs compare equal exactly when they have the same vertices and the same arcs. Normalising relabels to 0..n-1 in increasing order of old ids and keeps every arc's direction, returning the new-to-old map. Disjoint unions keep the first digraph unchanged and add the second with every id shifted by the same offset, one more than the first one's largest id (0 if empty), every arc keeping its direction.",
  ["histories", "inputs"], "all pairs of digraphs (antiparallel arcs, loops, isolated vertices, sparse ids)",
  "No test touches these operations for digraphs.",
  ["src/editdigraph.rs"], [], [("PartialEq/Clone/FromIterator/normalize/disj_union(s)", "src/editdigraph.rs")], ["==, clone, from_iter, normalize, disj_union, disj_unions"])

p("C07", "Neighbourhoods, distance balls and induced subgraphs are exact",
  "For every graph and vertex set X of its vertices, the open neighbourhood is the set of vertices outside X with a neighbour in X, the closed neighbourhood adds X, and the r-neighbourhood of X (or of one vertex) is exactly the set of vertices at distance at most r from X, for every r including 0. The subgraph induced by X has exactly the vertices X and the edges with both ends in X. For digraphs these treat arcs as undirected, and the in-/out-neighbourhood of X is the set of vertices outside X with an arc into/from X.",
  ["inputs"], "all graphs in every representation that lists neighbours, all vertex sets (also empty, overlapping neighbourhoods, loops), all radii",
  "Only a five-vertex path is tested, with at most two centres and no radius above what a domination test implies.",
  ["src/graph.rs"], [], [("provided methods of Graph and Digraph", "src/graph.rs")], ["neighbourhood, closed_neighbourhood, r_neighbours, r_neighbourhood, subgraph, in_neighbourhood, out_neighbourhood"])

p("C08", "Iterators enumerate every element exactly once",
  "Iterating vertices, neighbourhoods, in-/out-neighbourhoods, left neighbourhoods, edges, arcs or vertices-and-edges of a graph yields every such element exactly once and nothing else, paired with the right vertex. Undirected edges are reported once with the smaller endpoint first, loops included, also in the mixed vertex-and-edge iteration; arcs are reported as (tail, head). The same elements come out however the iterator is consumed: in several parts, skipping elements, several iterators in turn, or only counted; nothing follows after the end and size hints are true.",
  ["inputs", "histories"], "all graphs and digraphs in every representation that supports the iterator (simple representation: no loops where the structure forbids them), after any edit history",
  "Tests iterate over a clique, a biclique and a star; loops, isolated vertices, empty graphs and graphs with removed vertices are not iterated.",
  ["src/iterators.rs", "src/degengraph.rs", "src/reachgraph.rs"], [],
  [("NeighIterator, DiNeighIterator, EdgeIterator, MixedIterator, ArcIterator, LeftNeighIterator", "src/iterators.rs"), ("DegenIterator/DegenOrderIterator", "src/degengraph.rs")],
  ["sequences produced by the iterators"])

p("C09", "Graph operations compute the textbook result",
  "The complement has the same vertices and exactly the missing loop-free edges; merge is the union and intersection the intersection of vertex sets and edge sets; t-fold subdivision of a loop-free graph keeps the vertices and replaces every edge by its own path with t fresh inner vertices (the graph itself for t = 0). The Cartesian product and the lexicographic product (copies of the first graph placed at the vertices of the second, fully joined along its edges) have exactly one vertex per pair, isolated ones included, numbered 0..|V||W|-1, exactly the edges of the textbook definition, and return the map from product vertices to pairs.",
  ["inputs"], "all pairs of graphs, also with isolated vertices, different or overlapping vertex sets, empty graphs; all subdivision counts",
  "Tests check one or two tiny instances per operation and for products only vertex and edge counts.",
  ["src/operations.rs"], [], [("GraphOperations", "src/operations.rs")], ["resulting graphs and maps"])

p("C10", "Subgraph comparison is the exact partial order",
  "Comparing two graphs reports 'equal' exactly when they have the same vertices and edges, 'sub' exactly when the first is a proper subgraph of the second, 'super' in the mirrored case and 'incomparable' otherwise, isolated vertices and loops counting like any other element. For digraphs the comparison is that of the underlying undirected graphs.",
  ["inputs"], "all pairs of graphs of the same representation",
  "Eight fixed comparisons of named graphs; none differ only in isolated vertices or loops, and no digraph is compared.",
  ["src/compare.rs"], [], [("compare_subgraph", "src/compare.rs")], ["compare_subgraph"])

p("C11", "Connected components partition the vertices by reachability",
  "The computed components are non-empty, pairwise disjoint, cover every vertex (isolated ones included), and two vertices share a component exactly when a path (arcs taken in either direction for digraphs) joins them.",
  ["inputs"], "all graphs and digraphs, including empty graphs, loops and isolated vertices, in every representation that lists neighbours",
  "Only matchings and one clique are tested, by counting components.",
  ["src/algorithms/graph.rs"], [], [("components", "src/algorithms/graph.rs")], ["components"])

p("C12", "Bipartiteness test always returns a correct witness",
  "For a bipartite graph the test returns two disjoint sets that together are exactly the vertex set with every edge joining the two; for a non-bipartite graph it returns an odd-length cycle: distinct vertices of the graph, consecutive ones adjacent and the last adjacent to the first (a single vertex with a loop counts).",
  ["inputs"], "all graphs (any component structure, any vertex where the search happens to start, loops included)",
  "Tests check the kind of the witness and consecutive adjacency on one graph, not that the cycle is odd or that vertices are distinct.",
  ["src/algorithms/graph.rs"], [], [("is_bipartite", "src/algorithms/graph.rs")], ["is_bipartite"])

p("C13", "Degeneracy bounds, ordering and core numbers are correct",
  "For every loop-free graph the degeneracy lies between the returned lower and upper bound, and the returned order lists every vertex exactly once such that every vertex has at most 'upper bound' neighbours before it. If the degeneracy is at most 128, both bounds equal it and the returned map gives exactly every vertex's core number (the largest k such that the vertex lies in a subgraph of minimum degree k).",
  ["inputs"], "all loop-free undirected graphs, of degeneracy below and above 128",
  "Tested on one 34-vertex graph of degeneracy 4; the coarse buckets used for large degrees and the core numbers are never checked.",
  ["src/algorithms/graph.rs"], [("buckets", "vertices by current degree, exponential buckets above 128", "src/algorithms/graph.rs fn degeneracy")],
  [("degeneracy", "src/algorithms/graph.rs")], ["degeneracy"])

p("C14", "Ordered graphs stay consistent with their order under any swaps",
  "A graph with a vertex ordering represents exactly the given loop-free graph: for every vertex the left/right neighbours are exactly its neighbours before/after it in the current order (listed in that order), index queries, iteration order, left-/right-degrees and their maxima, leftmost/rightmost, degree, adjacency and edge count all agree. Swapping two vertices exchanges exactly their two positions and keeps the graph unchanged, for any sequence of swaps, adjacent pairs and pairs with common neighbours included; swapping a vertex with itself or with an absent vertex changes nothing. An order computed from the degeneracy has all left degrees at most the degeneracy (if that is at most 128).",
  ["histories", "inputs"], "all loop-free graphs, all orderings, all swap sequences",
  "Swap is not tested at all; construction is tested on a clique and one graph file.",
  ["src/ordgraph.rs", "src/graph.rs"], [("position index", "vertex to position", "src/ordgraph.rs OrdGraph.indices"), ("left/right sets", "per vertex", "src/ordgraph.rs OrdNode")],
  [("with_ordering, by_degeneracy, swap", "src/ordgraph.rs"), ("LinearGraph defaults", "src/graph.rs")], ["LinearGraph and Graph queries on OrdGraph"])

p("C15", "The compressed degenerate graph is a faithful copy, also after relabelling",
  "A compressed ordered graph built from a loop-free graph with an ordering (given, computed by degeneracy, or converted from an ordered graph) iterates its vertices in that order and answers membership, adjacency, ordered adjacency (true exactly if the first vertex is left of the second and they are adjacent), degrees, left/right neighbours, first vertex and edge count exactly like that graph; index queries increase along the order. Normalising renames the vertices to their positions 0..n-1, returns the map from new to old names, lists left neighbourhoods in increasing order and changes nothing else; the empty graph is normalised to the empty graph. The same holds for graphs assembled vertex by vertex with the builder.",
  ["inputs", "configurations"], "all loop-free graphs (empty ones and isolated vertices included) and all orderings",
  "Tests use two data sets and small paths; the layout uses unchecked indexing, so a wrong offset shows only for particular shapes (isolated first/last vertices, empty graph).",
  ["src/degengraph.rs", "src/ordgraph.rs"], [("flat contents array with next pointers", "layout of left neighbourhoods", "src/degengraph.rs DegenGraph.contents"), ("right neighbour sets", "", "src/degengraph.rs DegenGraph.right_neighbours")],
  [("DegenGraphBuilder, normalize, iterators", "src/degengraph.rs"), ("to_degeneracy_graph", "src/ordgraph.rs")], ["Graph and LinearGraph queries, iter, normalize"])

p("C16", "Weakly and strongly reachable sets have exactly the defined members",
  "For every ordered graph, vertex u and r >= 0, the strongly r-reachable set contains exactly the vertices v before u joined to u by a path of length at most r whose other vertices are not before u, the weakly r-reachable set exactly the v before u joined by a path of length at most r on which v is the leftmost vertex, each with the length of the shortest such path. All-vertices maps, single-vertex queries and size maps agree with each other, and the layered search to the right from a root returns exactly the layers of shortest distance among vertices not before the root.",
  ["inputs"], "all loop-free graphs, all orderings, all r >= 0, on every ordered representation that lists neighbours",
  "Tests check a handful of sets for r up to 5 and compare two computations by the same code on one data set.",
  ["src/algorithms/lineargraph.rs"], [], [("right_bfs, sreach_set(s), sreach_sizes, wreach_sets, wreach_sizes", "src/algorithms/lineargraph.rs")], ["right_bfs, sreach_set, sreach_sets, sreach_sizes, wreach_sets, wreach_sizes"])

p("C17", "Reach graphs store exactly the reachable sets by distance and order",
  "A reach graph of depth r built from an ordered graph, for weak or strong reachability, holds for every vertex and every distance d from 1 to r exactly the vertices reachable at distance d, in the ordering's order, and the combined list is their concatenation. Sizes, emptiness, first vertex, successor access, vertex order and the iteration over all vertices agree, and as a graph it has exactly the original vertices, edges, degrees, left neighbours (in order) and adjacency. Records assembled directly with the builder are stored just as faithfully, whatever distances they contain.",
  ["inputs", "configurations"], "all loop-free graphs, all orderings, all depths r >= 1, weak and strong",
  "Tests cover one data set at depth 5 (weak) and degrees at depth 3; vertices without reachable vertices at some distance, strong sets and depth 1 or 2 are not covered.",
  ["src/reachgraph.rs", "src/ordgraph.rs"], [("flat contents array with distance offsets", "", "src/reachgraph.rs ReachGraph.contents")],
  [("ReachGraphBuilder, reachables, iterators", "src/reachgraph.rs"), ("to_wreach_graph, to_sreach_graph", "src/ordgraph.rs")], ["reachables, next_reachables, reachables_all, iter, Graph/LinearGraph queries"])

p("C18", "Maximal clique count is exact and independent of order and representation",
  "The number of maximal cliques reported for a loop-free graph is exactly the number of its inclusion-maximal cliques (isolated vertices and non-extendable edges count), for every vertex ordering and for every ordered representation of the same graph.",
  ["inputs", "configurations"], "all loop-free graphs, all orderings, all three ordered representations",
  "Tested on a clique, an independent set and a complete tripartite graph only, whose symmetry hides pivoting errors.",
  ["src/algorithms/lineargraph.rs"], [], [("count_max_cliques, pivoted Bron-Kerbosch with prefix removal", "src/algorithms/lineargraph.rs")], ["count_max_cliques"])

p("C19", "Greedy colouring is total, proper and bounded by the left degrees",
  "The greedy colouring of an ordered loop-free graph assigns a colour to every vertex, gives adjacent vertices different colours, uses colours 0..k-1 without gaps, and gives every vertex the smallest colour not used by its left neighbours, hence at most one more colour than the largest left degree.",
  ["inputs"], "all loop-free graphs and all orderings",
  "Only a clique and an independent set are coloured; a vertex whose left neighbours repeat colours is never met.",
  ["src/algorithms/lineargraph.rs"], [], [("colour_greedy", "src/algorithms/lineargraph.rs")], ["colour_greedy"])

p("C20", "Approximate domination on ordered graphs dominates, with scattered witness",
  "For every radius r (0 included) the computed set consists of vertices of the graph and dominates every target vertex (all vertices if no target is given) within distance r. The reported distance of every target vertex is at most r and never below its true distance to the set, and 0 for the members of the set; for an empty target the set is empty. If a witness is requested, it is a colouring of a non-empty (if the target is non-empty) subset of the set in which the coloured vertices are target vertices and two vertices of the same colour have distance more than 2r; the domination results do not depend on requesting the witness.",
  ["inputs", "configurations"], "all loop-free graphs, all orderings, all target sets including the empty set, all radii",
  "Tests cover one data set and grids with a degeneracy order; the forced-inclusion rule for often-used vertices and other orderings are barely reached, the distances never checked.",
  ["src/algorithms/lineargraph.rs"], [], [("domset, domset_with_target", "src/algorithms/lineargraph.rs")], ["domset, domset_with_target"])

p("C21", "Scattered colouring partitions the target into far-apart classes",
  "For every distance d and target set of vertices, the returned classes are non-empty, pairwise disjoint and their union is exactly the target; two different vertices in the same class have distance at least d in the graph. An empty target gives no classes.",
  ["inputs", "configurations"], "all loop-free graphs, orderings, targets and distances, odd ones included",
  "One grid with distance 4 is tested; odd distances, where half the distance is rounded, are not.",
  ["src/algorithms/lineargraph.rs"], [], [("scattered_colouring with class merging", "src/algorithms/lineargraph.rs")], ["scattered_colouring"])

p("C22", "Short-distance oracle answers exactly up to its depth",
  "After augmenting a loop-free graph to depth d (in one or several steps, with any look-ahead parameter), the distance query returns exactly the distance of the two vertices if it is at most d and 'none' otherwise, for every pair, symmetric, and 0 for a vertex and itself. The weight of an arc is never smaller than the distance of its endpoints in the original graph, and augmenting never removes arcs or lowers the depth. Looking at the layer of some weight in between, also of a weight that the augmentation has not reached, changes neither the depth nor any answer.",
  ["inputs", "histories", "configurations"], "all loop-free graphs, all depths, all augmentation sequences and look-ahead parameters",
  "The only distance test is commented out; others use the oracle merely to check inequality on grids and skip unanswered pairs.",
  ["src/dtfgraph.rs", "src/iterators.rs"], [("weighted in-arcs per vertex", "augmentation", "src/dtfgraph.rs DTFNode.in_arcs"), ("depth", "current depth", "src/dtfgraph.rs DTFGraph.depth")],
  [("orient, augment, orient_deep, small_distance", "src/dtfgraph.rs"), ("DTFArcIterator", "src/iterators.rs")], ["small_distance, get_arc_depth, get_depth"])

p("C23", "Augmentation views and bookkeeping agree with its arcs",
  "At any depth, iterating over all arcs or the arcs of one weight yields exactly the stored arcs as (tail, head), each once; arc queries, arc counts per weight, in-neighbours (per weight and with weights), in-, out- and total degrees, the view restricted to one weight (its arc, adjacency, degree and count queries see only arcs of that weight) and the undirected graph obtained by forgetting directions all agree with them. Orienting a graph keeps its vertices and turns every edge into exactly one arc of weight 1, acyclically; adding an arc at any weight raises the depth to at least that weight and never lowers it; a subgraph restricted to an edge list keeps all vertices and exactly the stored arcs along those edges.",
  ["histories", "inputs"], "all loop-free graphs, sequences of orient / augment / add arc / take layer views",
  "Tests check three in-neighbours at weight 1 and one subgraph; layers, per-weight counts and arc iteration over an augmentation are not tested.",
  ["src/dtfgraph.rs", "src/iterators.rs"], [("in_arcs/in_degs/out_degs per weight", "", "src/dtfgraph.rs DTFNode"), ("ms", "arc count per weight", "src/dtfgraph.rs DTFGraph.ms")],
  [("add_arc, reserve_depth, DTFLayer, edge_subgraph, to_undirected", "src/dtfgraph.rs"), ("DTFNIterator, DTFArcIterator", "src/iterators.rs")], ["arcs, arcs_at, in_neighbours_at, layer, num_arcs_at_depth, degrees"])

p("C24", "Augmentation-based domination covers every vertex",
  "For every radius r (0 included) the set computed from the augmentation consists of vertices of the graph and every vertex of the graph is within distance r of it, whatever depth the augmentation had before; afterwards the depth is at least r and distance queries stay exact.",
  ["inputs", "histories"], "all loop-free graphs, all radii, any sequence of augment and domination calls",
  "One data set with increasing radii is tested.",
  ["src/dtfgraph.rs"], [], [("domset", "src/dtfgraph.rs")], ["domset, get_depth, small_distance"])

p("C25", "Trace oracle counts neighbourhood traces exactly",
  "For every ordered graph and every vertex set X given in order, the oracle's positive counts give for every subset S of X exactly the number of vertices outside X whose neighbours in X are exactly S, the neighbour count is exactly the number of vertices outside X with a neighbour in X, and X is reported k-shattered (k at least |X|) exactly when every subset of X occurs at least 2^(k-|X|) times.",
  ["inputs"], "all loop-free graphs, all orderings, all vertex sets X (also with edges inside X, more than 64 relevant vertices)",
  "Three fixed graphs and one random order of a fixed 11-vertex graph are tested; sets with inner edges and wide contexts are not, and the neighbour count has no test.",
  ["src/datastructures/sreach_trace_oracle.rs"], [("contexts", "per vertex: counted bitsets over its strongly 2-reachable vertices", "src/datastructures/sreach_trace_oracle.rs SReachContext")],
  [("for_graph, compute_traces, compute_neighbour_count, is_shattered", "src/datastructures/sreach_trace_oracle.rs")], ["compute_traces, compute_neighbour_count, is_shattered"])

p("C26", "Writing and reading back preserves graphs, sets and sequences",
  "Writing a graph to a plain or gzipped file and reading it back (with the format-specific or the extension-based reader) yields exactly its edges with their endpoints, loops and extreme ids included; only isolated vertices are lost. Vertex sets come back as the same set and vertex sequences as the same sequence with order and repetitions, and a file is replaced completely by a later write. If the medium takes only part of the data (a full disk, or a writer that fails after any number of bytes, or only when flushed), writing returns an error: a reported success means that reading back gives everything; short transfers and interruptions are not failures.",
  ["inputs", "histories", "fault_sequences"], "all graphs, sets and sequences over all 32-bit ids, all writer/reader combinations for one format; every point at which the medium can fail",
  "Tests write a biclique and three-element collections.",
  ["src/io.rs"], [], [("WriteToFile, LoadFromFile", "src/io.rs")], ["from_txt, from_gzipped, from_file, write_txt, write_gzipped"])

p("C27", "Malformed or unreadable input is reported as an error, never a crash",
  "Reading a graph succeeds exactly if every line consists of two whitespace-separated unsigned 32-bit integers, and then yields exactly the graph of those edges (duplicate and reversed lines collapse); reading a set or sequence succeeds exactly if every line holds one such integer. A compressed file may consist of several members and is read completely. Everything else (missing or extra fields, blank lines, out-of-range or non-numeric ids, invalid text encoding, corrupt, truncated or continued compressed data, a medium that fails at any point while reading, missing file, a directory, unsupported extension) returns an error and never panics or yields a partial result.",
  ["inputs", "fault_sequences"], "all file contents, plain and compressed, all truncation points, all points at which reading can fail",
  "No test reads a malformed file.",
  ["src/io.rs"], [], [("from_buf, from_buf_with_estimate, parse_vertex, open_reader", "src/io.rs")], ["io::Result of the readers"])

p("C28", "Vertex colourings, vertex maps and mixed elements behave as specified",
  "A vertex colouring behaves as a map from vertices to colours (later insertions win, restriction keeps exactly the coloured vertices asked for, building from a list of sets colours the i-th set i, each used colour listed once); extending by another colouring keeps all existing colours, adds exactly the missing vertices, and gives added vertices colours different from all previous ones, equal among themselves exactly when they were equal before. Inverting a map groups exactly the vertices of each value and the majority set is a largest group with its value (none if empty). Two mixed elements intersect exactly if they share a vertex, and the intersection is the shared edge, or a shared vertex.",
  ["inputs", "histories"], "all colourings, maps and pairs of mixed elements; all sequences of insert and extend",
  "One fixed example each; extension with overlapping vertices and repeated colours is barely tested, mixed intersections not at all.",
  ["src/graph.rs"], [], [("VertexColouring, VertexMapOperations, VertexOrEdge", "src/graph.rs")], ["methods of these types"])

p("C29", "Every representation of one graph gives the same answers",
  "Starting from one loop-free graph and ordering, the editable graph, the ordered graph (after any swaps), the compressed ordered graph and the reach graph built from it agree on vertices, membership, edge count, adjacency and degrees; the ordered ones also agree on vertex order, left neighbours, left/right degrees, reachable sets, clique count and greedy colouring. Converting along any chain of representations (including back to an editable graph via induced subgraphs or edge lists) loses and adds nothing.",
  ["programs", "histories", "inputs"], "all conversion chains over all graphs, orderings and swap sequences",
  "Tests compare degrees of two representations on one data set; no chain is longer than one step and none follows a swap.",
  ["src/ordgraph.rs", "src/degengraph.rs", "src/reachgraph.rs", "src/graph.rs"], [], [("to_degeneracy_graph, to_wreach_graph, to_sreach_graph, with_ordering, from_graph, subgraph", "src/ordgraph.rs, src/degengraph.rs, src/reachgraph.rs, src/graph.rs")],
  ["shared Graph and LinearGraph queries"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
