import os
S=[]
def seed(id,prop,needs,breaks,edits,demo):
    t=f"id: {id}\nproperty: {prop}\nneeds: {needs}\nbreaks: {breaks}\n"
    for f,o,n in edits: t+=f"=== file {f}\n{o}\n-----\n{n}\n"
    t+="=== demo\n"+demo.strip()+"\n"
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)),id+".seed"),"w").write(t)

seed("c01-isolates-loop","C01","a vertex whose only edge is a loop, then remove_isolates","remove_isolates also removes a vertex that carries a loop",
[("src/graph.rs","""    fn remove_vertex(&mut self, u: &Vertex) -> bool;

    /// Adds the edge `uv`""","""    fn remove_vertex(&mut self, u: &Vertex) -> bool;

    /// Adds the edge `uv`""")],"fn main(){}")
os.remove("c01-isolates-loop.seed")

seed("c01-remove-isolated-pair","C01","remove_vertex on a vertex with a loop, then looking at the edge count",
"removing a vertex with a loop forgets the loop in the edge count",
[("src/editgraph.rs","""            for v in &N {
                self.adj.get_mut(v).unwrap().remove(u);
                self.degs.insert(*v, self.degs[v] - 1);
                self.m -= 1;
            }

            self.adj.remove(u);""","""            for v in &N {
                if v != u {
                    self.adj.get_mut(v).unwrap().remove(u);
                    self.degs.insert(*v, self.degs[v] - 1);
                    self.m -= 1;
                }
            }

            self.adj.remove(u);""")],
"""fn main(){
    let mut g = eg(&[], &[(1,1),(1,2),(2,3)]);
    assert!(g.remove_vertex(&1));
    assert_eq!(g.num_edges(), 1);
    assert_eq!(g.edges().count(), g.num_edges());
}""")

seed("c02-contract-centre-in-set","C02","contract_into with the centre listed among the contracted vertices",
"contracting a set that contains the centre deletes the centre",
[("src/editgraph.rs","""        contract.remove(center);

        let mut N = self.neighbourhood(contract.iter());
        N.remove(center);""","""        let mut N = self.neighbourhood(contract.iter());
        N.remove(center);
        contract.retain(|x| x != center || !self.adjacent(x, center));""")],
"""fn main(){
    let mut g = eg(&[], &[(0,1),(1,2),(2,3),(3,4),(1,5)]);
    g.contract_into(&1, [1u32,2].iter());
    assert!(g.contains(&1));
    assert_eq!(set(g.neighbours(&1)), set(&[0,3,5]));
}""")

seed("c02-pair-loop","C02","contract_pair(u, v) where v carries a loop",
"the removed vertex comes back as a neighbour of the centre",
[("src/editgraph.rs","""        for x in N {
            self.add_edge(u, &x);
        }
        self.remove_vertex(v);""","""        self.remove_vertex(v);
        for x in N {
            self.add_edge(u, &x);
        }""")],
"""fn main(){
    let mut g = eg(&[], &[(0,1),(1,1),(1,2)]);
    g.contract_pair(&0, &1);
    assert!(!g.contains(&1));
    assert_eq!(g.num_edges(), 1);
}""")

seed("c03-eq-degrees","C03","two graphs on the same vertices with equal degrees but different edges",
"equality compares only degrees",
[("src/editgraph.rs","""        if self.degs != other.degs {
            return false
        }
        self.adj == other.adj""","""        self.degs == other.degs""")],
"""fn main(){
    let a = eg(&[], &[(0,1),(1,2),(2,3),(3,0)]);
    let b = eg(&[], &[(0,2),(2,1),(1,3),(3,0)]);
    assert!(a != b);
    assert!(a == a.clone());
}""")

seed("c04-kpartite-many","C04","a complete k-partite graph with at least five parts",
"parts far apart in the list are not joined",
[("src/editgraph.rs","""            for j in (i+1)..ranges.len() {""","""            for j in (i+1)..ranges.len().min(i+4) {""")],
"""fn main(){
    let g = EditGraph::complete_kpartite([1u32,1,2,1,1].iter());
    assert_eq!(g.num_vertices(), 6);
    assert!(g.adjacent(&0, &5));
    assert_eq!(g.num_edges(), 14);
}""")

seed("c05-remove-vertex-loop","C05","removing a vertex that has a loop and then querying degrees/arcs; arcs in both directions between two vertices",
"removing a vertex keeps the in-arc of a neighbour that is also an out-neighbour",
[("src/editdigraph.rs","""            let N = self.in_adj.get(u).unwrap().clone();
            for v in &N {
                self.remove_arc(v, u);
            }""","""            let N:VertexSet = self.in_adj.get(u).unwrap().difference(&N).cloned().collect();
            for v in &N {
                self.remove_arc(v, u);
            }""")],
"""fn main(){
    let mut g = dg(&[], &[(0,1),(1,0),(1,2)]);
    g.remove_vertex(&1);
    assert_eq!(g.num_edges(), 0);
    assert_eq!(g.out_degree(&0), 0);
    assert!(!g.has_arc(&0, &1));
}""")

seed("c06-eq-outdeg","C06","two digraphs with equal out-degrees and different heads",
"digraph equality ignores the heads of the arcs",
[("src/editdigraph.rs","""        if self.out_degs != other.out_degs {
            return false
        }
        self.out_adj == other.out_adj""","""        if self.in_degs != other.in_degs {
            return false
        }
        self.out_degs == other.out_degs""")],
"""fn main(){
    let a = dg(&[], &[(0,1),(1,2),(2,0)]);
    let b = dg(&[], &[(0,2),(2,1),(1,0)]);
    assert!(a != b);
    assert!(a == a.clone());
}""")

seed("c07-nbhd-order","C07","a vertex set with adjacent members","the open neighbourhood contains members of the set",
[("src/graph.rs","""        for v in &centers {
            res.extend(self.neighbours(v).cloned());
        }

        res.retain(|u| !centers.contains(u));
        res
    }

    /// Returns the **closed**""","""        for v in &centers {
            res.extend(self.neighbours(v).cloned());
            res.remove(v);
        }

        res
    }

    /// Returns the **closed**""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(1,2),(2,3),(3,4),(0,4)]);
    for a in 0..5u32 { for b in 0..5u32 { for c in 0..5u32 {
        let n = g.neighbourhood([a,b,c].iter());
        assert!(!n.contains(&a) && !n.contains(&b) && !n.contains(&c));
    }}}
}""")

seed("c07-ball-stop","C07","a ball around several centres in a graph where the growth pauses being exponential: any ball whose radius exceeds 2 and whose second layer is not larger than the first",
"distance balls stop growing when a layer is not larger than the one before",
[("src/graph.rs","""        for _ in 0..r {
            let ext = self.closed_neighbourhood(res.iter());
            res.extend(ext);
        }""","""        let mut grown = 0;
        for _ in 0..r {
            let ext = self.closed_neighbourhood(res.iter());
            let gain = ext.len() - res.len();
            res.extend(ext);
            if gain == 0 || gain + 2 < grown {
                break;
            }
            grown = gain;
        }""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(0,2),(0,3),(0,4),(1,5),(5,6),(6,7)]);
    assert_eq!(g.r_neighbours(&0, 4).len(), 8);
}""")

seed("c08-arc-loops","C08","a graph with loops whose mixed iteration or edge iteration is counted",
"edge iteration reports a loop twice or not at all",
[("src/iterators.rs","""            if v > &u {
                continue;
            }
            return Some((*v, u));""","""            if v > &u || (v == &u && self.curr_v.is_none()) {
                continue;
            }
            if v == &u && u == 0 {
                continue;
            }
            return Some((*v, u));""")],
"""fn main(){
    let g = eg(&[], &[(0,0),(0,1),(1,1)]);
    let e: BTreeSet<(u32,u32)> = g.edges().collect();
    assert_eq!(e, [(0,0),(0,1),(1,1)].into_iter().collect());
}""")

seed("c09-merge-smaller","C09","merging with a smaller graph that has isolated vertices",
"merge loses isolated vertices of the smaller graph",
[("src/operations.rs","""        res.add_vertices(self.vertices());
        res.add_vertices(other.vertices());
        res.add_edges(self.edges());""","""        if self.len() >= other.len() {
            res.add_vertices(self.vertices());
        } else {
            res.add_vertices(other.vertices());
        }
        res.add_edges(self.edges());""")],
"""fn main(){
    let a = eg(&[0,1,2,3], &[(0,1)]);
    let b = eg(&[7], &[]);
    assert!(a.merge(&b).contains(&7));
    assert!(b.merge(&a).contains(&7));
}""")

seed("c09-subdivide-ids","C09","subdividing a graph with at least two edges at least twice",
"the inner vertices of different edges overlap",
[("src/operations.rs","""            free_id += times;""","""            free_id += times.min(3);""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(1,2),(2,3)]);
    let s = g.subdivide(4);
    assert_eq!(s.num_vertices(), 4 + 12);
    assert_eq!(s.num_edges(), 15);
}""")

seed("c10-vertex-count","C10","graphs whose isolated vertices differ in name","comparison counts the vertices of the second graph instead of looking them up",
[("src/compare.rs","""        let mut is_super: bool = other.vertices().all(|x| self.contains(x));""","""        let mut is_super: bool = other.num_vertices() <= self.num_vertices();""")],
"""fn main(){
    let a = eg(&[0,1,2], &[(0,1)]);
    let b = eg(&[0,1,3], &[(0,1)]);
    assert_eq!(a.compare_subgraph(&b), SubgraphRel::Incomp);
    let c = eg(&[3], &[]);
    assert_eq!(a.compare_subgraph(&c), SubgraphRel::Incomp);
}""")

seed("c11-union-again","C11","an edge that closes a cycle inside a component of a certain shape","joining two vertices of one component again corrupts the components",
[("src/algorithms/graph.rs","""            if dsets.find_set(&u).unwrap() == dsets.find_set(&v).unwrap() {
                continue
            }
""","""            if u == v {
                continue
            }
""")],
"""fn main(){
    for n in 3..12u32 {
        let mut g = EditGraph::clique(n);
        g.add_edges(&[(100,101),(101,102),(102,100),(200,200)]);
        let c = g.components();
        let all: usize = c.iter().map(|x| x.len()).sum();
        assert_eq!(all, n as usize + 4);
        assert_eq!(c.len(), 3);
    }
}""")

seed("c13-small-limit","C13","a degeneracy above 64","bounds are not exact any more for degeneracies between 65 and 128",
[("src/algorithms/graph.rs","""            let small = 2_i32.pow(7);""","""            let small = 2_i32.pow(6);""")],
"""fn main(){
    for n in [40u32, 66, 70, 90, 129] {
        let g = EditGraph::clique(n);
        let (lo, up, ord, core) = g.degeneracy();
        assert_eq!((lo, up), (n-1, n-1));
        assert!(core.values().all(|c| *c == n-1));
        assert_eq!(ord.len(), n as usize);
    }
}""")

seed("c13-core-number","C13","a graph in which a vertex of small degree becomes available only after a denser part was peeled",
"a core number is the degree at removal instead of the maximum so far",
[("src/algorithms/graph.rs","""            core_numbers.insert(v, core_num);""","""            core_numbers.insert(v, d as u32);""")],
"""fn main(){
    let g = EditGraph::clique(4);
    let (_, _, _, core) = g.degeneracy();
    assert!(core.values().all(|c| *c == 3));
}""")

seed("c14-swap-neighbour","C14","swapping two vertices when a neighbour sits directly before the new position",
"a neighbour right next to the target position keeps the moved vertex on the wrong side",
[("src/ordgraph.rs","""                if new_i > ix && n.left.contains(s) {""","""                if new_i > ix + 1 && n.left.contains(s) {""")],
"""fn main(){
    let g = eg(&[0,1,2,3,4], &[(0,2),(0,3),(1,3),(2,4)]);
    let mut o = OrdGraph::with_ordering(&g, [0u32,1,2,3,4].iter());
    o.swap(&0, &4);
    // order: 4 1 2 3 0
    assert_eq!(o.left_neighbours(&3), vec![1]);
    assert_eq!(o.right_neighbours(&3), vec![0]);
    assert_eq!(o.left_neighbours(&0), vec![2, 3]);
}""")

seed("c15-normalize-right","C15","normalising a compressed graph and asking about a vertex without right neighbours",
"normalize forgets vertices without right neighbours",
[("src/degengraph.rs","""        for (u, N) in self.right_neighbours.iter() {
            let new_N""","""        for (u, N) in self.right_neighbours.iter().filter(|(_, N)| !N.is_empty()) {
            let new_N""")],
"""fn main(){
    let g = eg(&[], &[(5,7),(7,9),(9,11)]);
    let mut d = DegenGraph::with_ordering(&g, [5u32,7,9,11].iter());
    d.normalize();
    assert!(d.adjacent(&2, &3));
    assert!(d.adjacent(&3, &2));
    assert_eq!(d.right_degree(&3), 0);
}""")

seed("c16-sreach-longer","C16","a vertex strongly reachable along paths of two different lengths",
"a strongly reachable vertex is reported with the length of a longer path",
[("src/algorithms/lineargraph.rs","""                        res.entry(x).or_insert((d+1) as u32);""","""                        res.insert(x, (d+1) as u32);""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(1,2),(0,2),(2,3),(3,0)]);
    let o = OrdGraph::with_ordering(&g, [0u32,1,2,3].iter());
    let s = o.sreach_set(&1, 3);
    assert_eq!(s[&0], 1);
}""")

seed("c17-reach-order","C17","an ordering that disagrees with the numeric order of ids",
"vertices of one distance are listed by id instead of by the ordering",
[("src/reachgraph.rs","""map(|(v,dist)| (*dist, order[v], *v)).collect();
        neighbour_order.sort_unstable();""","""map(|(v,dist)| (*dist, order[v], *v)).collect();
        neighbour_order.sort_unstable_by_key(|(dist,_,v)| (*dist, *v));""")],
"""fn main(){
    let g = eg(&[], &[(0,3),(1,3),(2,3)]);
    let o = OrdGraph::with_ordering(&g, [2u32,0,1,3].iter());
    let r = o.to_wreach_graph::<2>();
    assert_eq!(r.reachables(&3).at(1), &[2,0,1]);
}""")

seed("c18-exclude","C18","a clique whose extension was already excluded in another branch",
"non-maximal cliques are counted",
[("src/algorithms/lineargraph.rs","""        maybe.remove(w);
        exclude.insert(*w);""","""        maybe.remove(w);
        if w != &u {
            exclude.insert(*w);
        }""")],
"""fn main(){
    let mut bad = 0;
    for n in 2..6u32 { for m in 0..(1u32 << (n*(n-1)/2)) {
        let mut es = vec![]; let mut b = 0;
        for i in 0..n { for j in i+1..n { if m >> b & 1 == 1 { es.push((i,j)); } b += 1; } }
        let vs: Vec<u32> = (0..n).collect();
        let g = eg(&vs, &es);
        let mut cl = vec![];
        for s in 1u32..(1<<n) {
            let c: Vec<u32> = (0..n).filter(|v| s >> v & 1 == 1).collect();
            if c.iter().all(|u| c.iter().all(|v| u == v || g.adjacent(u, v))) { cl.push(s); }
        }
        let maximal = cl.iter().filter(|s| cl.iter().all(|t| t == *s || (t & *s) != **s)).count();
        let o = OrdGraph::with_ordering(&g, vs.iter());
        if o.count_max_cliques() != maximal as u64 { bad += 1; }
    }}
    assert_eq!(bad, 0);
}""")

seed("c19-colour-smallest","C19","a vertex whose left neighbours use a proper subset of the colours",
"the largest instead of the smallest free colour is used",
[("src/algorithms/lineargraph.rs","""            for c in used_colours.iter() {""","""            for c in used_colours.iter().rev() {""")],
"""fn main(){
    let g = eg(&[0,1,2,3,4], &[(0,1),(1,2),(0,2),(3,4)]);
    let o = OrdGraph::with_ordering(&g, [0u32,1,2,3,4].iter());
    let c = o.colour_greedy();
    assert_eq!(c[&3], 0);
    assert_eq!(c[&4], 1);
}""")

seed("c20-cutoff-member","C20","more than (2r)^2 dominators sharing a reachable vertex",
"a vertex that is used too often is treated as a dominator without being in the set",
[("src/algorithms/lineargraph.rs","""                    domset.insert(*u);
                    dom_distance.insert(*u, 0);

                    for (x,xdist) in wreach.get(u).unwrap().iter() {
                        *dom_distance.get_mut(x).unwrap() = u32::min(dom_distance[x], *xdist);
                    }
                }
            }
        }

        if !witness {""","""                    if target.contains(u) {
                        domset.insert(*u);
                    }
                    dom_distance.insert(*u, 0);

                    for (x,xdist) in wreach.get(u).unwrap().iter() {
                        *dom_distance.get_mut(x).unwrap() = u32::min(dom_distance[x], *xdist);
                    }
                }
            }
        }

        if !witness {""")],
"""fn main(){
    // a star whose centre comes first and is not a target: the leaves dominate themselves
    let n = 14u32;
    let es: Vec<(u32,u32)> = (1..=n).map(|i| (0,i)).collect();
    let g = eg(&[], &es);
    let order: Vec<u32> = (0..=n).collect();
    let o = OrdGraph::with_ordering(&g, order.iter());
    let t: Vec<u32> = (1..=n).collect();
    let (ds, dist, _) = o.domset_with_target(1, false, t.iter());
    for v in &t {
        let near = g.closed_neighbourhood([*v].iter());
        assert!(ds.iter().any(|x| near.contains(x)), "{v} is not dominated");
        assert!(dist[v] <= 1);
    }
}""")

seed("c20-witness-exact","C20","two chosen vertices at distance exactly 2r whose path's leftmost vertex is inside",
"witness vertices of one colour may be at distance exactly 2r",
[("src/algorithms/lineargraph.rs","""                if dx + dy <= 2*radius {
                    H.add_edge(x, y);
                }
            }

            if !scattered.contains(&w) {
                continue
            }

            for (x,dx) in O.iter() {
                assert!(*dx <= 2*radius);""","""                if dx + dy < 2*radius {
                    H.add_edge(x, y);
                }
            }

            if !scattered.contains(&w) {
                continue
            }

            for (x,dx) in O.iter() {
                assert!(*dx <= 2*radius);""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(0,2),(0,3)]);
    let o = OrdGraph::with_ordering(&g, [0u32,1,2,3].iter());
    for t in [vec![1u32,2,3], vec![1,2], vec![2,3]] {
        let (_, _, c) = o.domset_with_target(1, true, t.iter());
        let c = c.unwrap();
        for (u, a) in c.iter() { for (v, b) in c.iter() {
            if u != v && a == b { assert!(!g.r_neighbours(u, 2).contains(v)); }
        }}
    }
}""")

seed("c21-wreach-radius","C21","two classes that can only be told apart by a path whose leftmost vertex is an endpoint, for distances of at least 4",
"classes that are too close are merged",
[("src/algorithms/lineargraph.rs","""        let wreach = self.wreach_sets(distance);""","""        let wreach = self.wreach_sets(distance.min(radius + 2));""")],
"""fn main(){
    let mut bad = 0;
    for d in 5..8u32 { for n in 4..12u32 { for shift in 0..n {
        let g = EditGraph::path(n);
        let order: Vec<u32> = (0..n).map(|i| (i * 5 + shift) % n).collect();
        if order.iter().collect::<BTreeSet<_>>().len() != n as usize { continue; }
        let o = OrdGraph::with_ordering(&g, order.iter());
        for a in 0..n { for b in a+1..n {
            for c in o.scattered_colouring(d, [a,b].iter()) {
                if c.len() == 2 && b - a < d { bad += 1; }
            }
        }}
    }}}
    assert_eq!(bad, 0);
}""")

seed("c22-trans-half","C22","augmentation to depth at least 3 and a transitive pair whose long arc is the last one",
"transitive arcs through a long second arc are not added",
[("src/dtfgraph.rs","""        for wy in 1..depth {
            let wx""","""        for wy in 1..=(depth+1)/2 {
            if wy >= depth { break }
            let wx""")],
"""fn main(){
    let mut bad = 0;
    for n in 4..12u32 { for m in [EditGraph::path(n), EditGraph::cycle(n), EditGraph::grid(3, n/2)] {
        for d in 2..8usize { for f in 0..3usize {
            let mut t = DTFGraph::orient(&m);
            t.augment(d, f);
            for u in m.vertices() { for v in m.vertices() {
                let true_d = (0..=d).find(|k| m.r_neighbours(u, *k).contains(v)).map(|x| x as u32);
                if t.small_distance(u, v) != true_d { bad += 1; }
            }}
        }}
    }}
    assert_eq!(bad, 0);
}""")

seed("c23-subgraph-both","C23","edge_subgraph of an augmentation that stores both arcs of one edge",
"only one of two opposite arcs is kept",
[("src/dtfgraph.rs","""                res.add_arc(&u, &v, 1);
            }
            if self.has_arc(&v, &u) {""","""                res.add_arc(&u, &v, 1);
            } else if self.has_arc(&v, &u) {""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(1,2)]);
    let mut t = DTFGraph::orient(&g);
    t.add_arc(&0, &1, 1);
    t.add_arc(&1, &0, 1);
    let s = t.edge_subgraph([(0u32,1u32)].into_iter());
    assert!(s.has_arc(&0, &1) && s.has_arc(&1, &0));
}""")

seed("c23-late-vertex","C23","adding a vertex after the depth was raised, then looking at it or giving it an in-arc of large weight",
"a vertex added after augmenting has no room for deep arcs",
[("src/dtfgraph.rs","""        let d = self.depth;
        self.nodes.entry(u).or_insert_with(||  DTFNode::new(d));
    }""","""        let d = if self.nodes.is_empty() { self.depth } else { 1 };
        self.nodes.entry(u).or_insert_with(||  DTFNode::new(d));
    }""")],
"""fn main(){
    let g = eg(&[], &[(0,1),(1,2)]);
    let mut t = DTFGraph::orient(&g);
    t.augment(3, 1);
    t.add_vertex(9);
    assert_eq!(t.in_neighbours_with_weights(&9).len(), 0);
    t.add_arc(&0, &9, 2);
    assert!(t.has_arc(&0, &9));
}""")

seed("c24-cutoff","C24","more than (2r)^2 dominators with a common in-neighbour",
"a vertex that is used too often is treated as a dominator without being in the set",
[("src/dtfgraph.rs","""                        domset.insert(*u);
                        dom_distance.insert(*u, 0);

                        for rx""","""                        dom_distance.insert(*u, 0);

                        for rx""")],
"""fn main(){
    let mut bad = 0;
    for legs in 5..30u32 {
        // subdivided stars and their relatives, radius 1
        let mut es = vec![];
        for i in 0..legs { es.push((0, 1+i)); es.push((1+i, 100+i)); es.push((100+i, 200+i)); es.push((0, 200+i)); }
        for g in [eg(&[], &es), EditGraph::star(legs), EditGraph::biclique(2, legs), EditGraph::biclique(3, legs), EditGraph::complete_kpartite([1,1,legs].iter())] {
            for depth in 1..4usize { for r in 0..3u32 {
                let mut t = DTFGraph::orient(&g);
                t.augment(depth, 1);
                let ds = t.domset(r);
                let ball = g.r_neighbourhood(ds.iter(), r as usize);
                if ball.len() != g.num_vertices() { bad += 1; }
            }}
        }
    }
    assert_eq!(bad, 0);
}""")

seed("c25-shattered-missing","C25","a vertex set of which some subset never occurs while all others occur",
"a set is reported shattered although a subset is missing",
[("src/datastructures/sreach_trace_oracle.rs","""        if traces.len() < num_neighbourhoods {
            return false
        }""","""        if traces.len() + 1 < num_neighbourhoods {
            return false
        }""")],
"""fn main(){
    // {0,1}: vertices seeing both, only 0, none -- but none sees only 1
    for order in [[0u32,1,2,3,4],[4,3,2,1,0],[2,0,3,1,4],[3,4,0,1,2],[2,3,4,0,1],[2,3,4,1,0]] {
        for (es, a, b) in [(vec![(0,2),(1,2),(0,3)],0u32,1u32),(vec![(0,2),(1,2),(1,3)],0,1)] {
            let g = eg(&[0,1,2,3,4], &es);
            let d = DegenGraph::with_ordering(&g, order.iter());
            let q = SReachTraceOracle::for_graph(&d);
            assert!(!q.is_shattered([a,b].iter(), 2, &d));
        }
    }
}""")

seed("c26-no-truncate","C26","writing a shorter content over an existing longer file","the tail of the old file survives a later write",
[("src/io.rs","""        let file = File::create(filename)?;
        let buf = BufWriter::new(file);""","""        let file = File::options().write(true).create(true).open(filename)?;
        let buf = BufWriter::new(file);""")],
"""fn main(){
    let d = std::env::current_dir().unwrap();
    let f = d.join("x.txt"); let f = f.to_str().unwrap();
    eg(&[], &[(0,1),(1,2),(2,3)]).write_txt(f).unwrap();
    let b = eg(&[], &[(0,1)]);
    b.write_txt(f).unwrap();
    assert!(EditGraph::from_file(f).unwrap() == b);
}""")

seed("c27-extra-token","C27","a graph file with more than two fields in a line, read through the extension-based reader",
"extra fields are ignored by one of the readers",
[("src/io.rs","""        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().collect();
            if tokens.len() != 2 {""","""        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().collect();
            if tokens.len() < 2 {""")],
"""fn main(){
    std::fs::write("x.txt", "0 1\\n1 2 3\\n").unwrap();
    assert!(EditGraph::from_file("x.txt").is_err());
    assert!(EditGraph::from_txt("x.txt").is_err());
}""")

seed("c28-extend-offset","C28","extending a colouring whose colours have gaps","added vertices can receive a colour that was used before",
[("src/graph.rs","""            let mut res = *colours.iter().max().unwrap();
            res.inc();
            res""","""            let mut res = T::zero();
            for _ in 0..colours.len() {
                res.inc();
            }
            res""")],
"""fn main(){
    let mut a = VertexColouring::from_iter([(0u32,0u32),(1,5)]);
    let b = VertexColouring::from_iter([(2u32,3u32),(3,0)]);
    a.disjoint_extend(&b);
    assert!(a[&2] != 0 && a[&2] != 5 && a[&3] != a[&2] && a[&3] != 5 && a[&3] != 0);
    assert!(a[&2] != a[&1]);
}""")

seed("c28-edge-share","C28","two edges that share the second endpoint of both","edges sharing their second endpoints do not intersect",
[("src/graph.rs","""                } else if b == c || b == d {""","""                } else if b == c {""")],
"""fn main(){
    let x = VertexOrEdge::E((1,3)); let y = VertexOrEdge::E((2,3));
    assert!(x.intersects(y) && y.intersects(x));
}""")

seed("c29-deg-edges","C29","a compressed graph converted from an ordered graph after a swap",
"the conversion lists left neighbours that moved to the right",
[("src/ordgraph.rs","""            let L = self.left_neighbours(u);
            builder.append(u, &L);""","""            let iu = self.index_of(u);
            let L:Vec<Vertex> = self.neighbours(u).filter(|v| self.index_of(v) + 1 < iu + 1 || (iu + 1 == self.index_of(v) && self.degree(v) > 6)).cloned().collect();
            builder.append(u, &L);""")],
"""fn main(){
    let g = EditGraph::clique(9);
    let o = OrdGraph::with_ordering(&g, (0u32..9).collect::<Vec<_>>().iter());
    let d = o.to_degeneracy_graph();
    assert_eq!(d.num_edges(), 36);
    for u in 0..9u32 { assert_eq!(d.degree(&u), 8); assert_eq!(d.left_neighbours(&u), o.left_neighbours(&u)); }
}""")
