seed("c05-isolates-loop","C05","a vertex whose only arc is a loop, then remove_isolates",
"remove_isolates of a digraph removes vertices that carry a loop",
[("src/graph.rs","""            self.remove_arc(&u, &u);
        }

        res
    }

    /// Removes all isolate vertices, that is, vertices without any neighbours. 
    /// Returns the number of isolates removed.
    fn remove_isolates(&mut self) -> usize {
        let cands:Vec<_> = self.vertices().filter(|&u| self.degree(u) == 0).cloned().collect();""","""            self.remove_arc(&u, &u);
        }

        res
    }

    /// Removes all isolate vertices, that is, vertices without any neighbours. 
    /// Returns the number of isolates removed.
    fn remove_isolates(&mut self) -> usize {
        let cands:Vec<_> = self.vertices().filter(|&u| self.in_neighbours(u).chain(self.out_neighbours(u)).all(|v| v == u)).cloned().collect();""")],
"""fn main(){
    let mut g = dg(&[7], &[(0,0),(1,2)]);
    assert_eq!(MutableDigraph::remove_isolates(&mut g), 1);
    assert!(g.contains(&0));
}""")
seed("c07-ball-rounds","C07","a ball of radius above 16 in a graph of large diameter","distance balls never grow beyond 16 rounds",
[("src/graph.rs","        for _ in 0..r {\n            let ext","        for _ in 0..r.min(16) {\n            let ext")],
"""fn main(){
    let g = EditGraph::path(40);
    for r in 0..40usize { assert_eq!(g.r_neighbours(&0, r).len(), r + 1); }
}""")
seed("c07-innbhd-order","C07","a vertex set with an arc between two members","the in-neighbourhood contains members of the set",
[("src/graph.rs","""            res.extend(self.in_neighbours(v).cloned());
        }

        res.retain(|u| !centers.contains(u));
        res""","""            res.extend(self.in_neighbours(v).cloned());
            res.remove(v);
        }

        res""")],
"""fn main(){
    let g = dg(&[], &[(0,1),(1,2),(2,3),(3,4),(4,0)]);
    for a in 0..5u32 { for b in 0..5u32 { for c in 0..5u32 {
        let n = g.in_neighbourhood([a,b,c].iter());
        assert!(!n.contains(&a) && !n.contains(&b) && !n.contains(&c));
    }}}
}""")
seed("c11-isolated","C11","a graph with isolated vertices","isolated vertices belong to no component",
[("src/algorithms/graph.rs","""            dsets.make_set(*v);""","""            if self.degree(v) > 0 {
                dsets.make_set(*v);
            }""")],
"""fn main(){
    let g = eg(&[0,1,2,9], &[(0,1)]);
    assert_eq!(g.components().len(), 3);
}""")
seed("c12-root-conflict","C12","an odd cycle through the vertex at which the search starts","the start vertex appears twice in the returned cycle",
[("src/algorithms/graph.rs","""            if path2.len() > 1 && path2.first() == path2.last() {
                path2.pop();
                return BipartiteWitness::OddCycle(path2);   
            }            
""","")],
"""fn main(){
    let mut bad = 0;
    for n in 3..6u32 { for m in 0..(1u32 << (n*(n-1)/2)) {
        let mut es = vec![]; let mut b = 0;
        for i in 0..n { for j in i+1..n { if m >> b & 1 == 1 { es.push((i,j)); } b += 1; } }
        let vs: Vec<u32> = (0..n).collect();
        let g = eg(&vs, &es);
        if let BipartiteWitness::OddCycle(c) = g.is_bipartite() {
            let k = c.len();
            if k % 2 == 0 || set(&c).len() != k || (0..k).any(|i| !g.adjacent(&c[i], &c[(i+1)%k])) { bad += 1; }
        }
    }}
    assert_eq!(bad, 0);
}""")
seed("c15-left-order","C15","a compressed graph whose order disagrees with the iteration order of the source graph","left neighbours are not listed in the order of the ordering",
[("src/degengraph.rs","""            L.sort_unstable();

            let L""","""            L.sort_unstable_by_key(|(_, v)| *v);

            let L""")],
"""fn main(){
    let g = eg(&[], &[(0,3),(1,3),(2,3)]);
    let mut d = DegenGraph::with_ordering(&g, [2u32,0,1,3].iter());
    assert_eq!(d.left_neighbours(&3), vec![2,0,1]);
}""")
seed("c16-bfs-shrink","C16","a layer that is at most a quarter of the layer before it, with another layer behind it","the layered search gives up when the layers shrink quickly",
[("src/algorithms/lineargraph.rs","""                        part2[0].insert(*v);
                        seen.insert(*v);
                    }
                }
            }""","""                        part2[0].insert(*v);
                        seen.insert(*v);
                    }
                }
            }
            if 4 * part2[0].len() <= part1[d-1].len() {
                break;
            }""")],
"""fn main(){
    let mut es: Vec<(u32,u32)> = vec![];
    for i in 1..=5u32 { es.push((0,i)); es.push((i,6)); }
    es.push((6,7));
    let g = eg(&[], &es);
    let order: Vec<u32> = (0..8).collect();
    let o = OrdGraph::with_ordering(&g, order.iter());
    assert_eq!(o.wreach_sets(3)[&7][&0], 3);
    assert_eq!(o.right_bfs(&0, 3)[3].len(), 1);
}""")
seed("c17-empty-first","C17","a vertex without left neighbours that reaches something at distance two","a reach set is called empty when only its first layer is empty",
[("src/reachgraph.rs","""        self.reachables.iter().all(|seg| seg.is_empty())""","""        self.reachables.first().map_or(true, |seg| seg.is_empty())""")],
"""fn main(){
    let g = eg(&[], &[(0,2),(1,2)]);
    let o = OrdGraph::with_ordering(&g, [0u32,1,2].iter());
    let r = o.to_wreach_graph::<2>();
    assert!(!r.reachables(&1).is_empty());
    assert!(r.reachables(&0).is_empty());
}""")
seed("c18-pivot-exclude","C18","a clique whose extension was excluded and lies behind all candidates in the ordering","excluded vertices behind the pivot are forgotten, so non-maximal cliques are counted",
[("src/algorithms/lineargraph.rs","""        if maybe.contains(&cand) || exclude.contains(&cand) {""","""        if maybe.contains(&cand) || (maybe.is_empty() && exclude.contains(&cand)) {""")],
"""fn main(){
    let mut bad = 0;
    for n in 2..7u32 { for m in 0..(1u32 << (n*(n-1)/2)) {
        if n == 6 && m % 7 != 0 { continue; }
        let mut es = vec![]; let mut b = 0;
        for i in 0..n { for j in i+1..n { if m >> b & 1 == 1 { es.push((i,j)); } b += 1; } }
        let vs: Vec<u32> = (0..n).collect();
        let g = eg(&vs, &es);
        let mut cl = vec![];
        for s in 1u32..(1<<n) {
            let c: Vec<u32> = (0..n).filter(|v| s >> v & 1 == 1).collect();
            if c.iter().all(|u| c.iter().all(|v| u == v || g.adjacent(u, v))) { cl.push(s); }
        }
        let maximal = cl.iter().filter(|s| cl.iter().all(|t| t == *s || (t & *s) != **s)).count();
        let o = OrdGraph::with_ordering(&g, vs.iter());
        if o.count_max_cliques() != maximal as u64 { bad += 1; }
    }}
    assert_eq!(bad, 0);
}""")
seed("c18-prefix","C18","a maximal clique of size at least four that is found through several last vertices","a clique recorded earlier is only discarded when the larger one has at most three vertices",
[("src/algorithms/lineargraph.rs","""        if include.len() > 1 {""","""        if include.len() > 1 && include.len() < 6 {""")],
"""fn main(){
    for n in 1..9u32 {
        let g = EditGraph::clique(n);
        let order: Vec<u32> = (0..n).collect();
        let o = OrdGraph::with_ordering(&g, order.iter());
        assert_eq!(o.count_max_cliques(), 1, "{n}");
    }
}""")
seed("c22-frat-half","C22","augmentation to depth three or more where the smaller vertex of a fraternal pair has the long arc","half of the fraternal pairs are not considered",
[("src/dtfgraph.rs","""        for wx in [1_usize,depth-1].iter() {""","""        for wx in [1_usize].iter() {"""),
 ("src/dtfgraph.rs","""                for y in self.in_neighbours_at(u, wy) {
                    if !self.adjacent(x, y) {
                        res.insert((*x,*y));
                    }
                }
            }
        }
        res""","""                for y in self.in_neighbours_at(u, wy) {
                    if x < y && !self.adjacent(x, y) {
                        res.insert((*x,*y));
                    }
                }
            }
        }
        res""")],
"""fn main(){
    let mut bad = 0;
    for n in 4..12u32 { for m in [EditGraph::path(n), EditGraph::cycle(n), EditGraph::grid(3, n/2)] {
        for d in 2..7usize { for f in 0..3usize {
            let mut t = DTFGraph::orient(&m);
            t.augment(d, f);
            for u in m.vertices() { for v in m.vertices() {
                let true_d = (0..=d).find(|k| m.r_neighbours(u, *k).contains(v)).map(|x| x as u32);
                if t.small_distance(u, v) != true_d { bad += 1; }
            }}
        }}
    }}
    assert_eq!(bad, 0);
}""")
seed("c24-depth-two","C24","calling domset with a radius above the depth of an already augmented graph","the augmentation is not deepened when it already has depth two",
[("src/dtfgraph.rs","""        self.augment(radius as usize, 2);""","""        if self.depth < 2 || radius < 2 {
            self.augment(radius as usize, 2);
        }""")],
"""fn main(){
    let g = EditGraph::path(20);
    let mut t = DTFGraph::orient(&g);
    t.augment(2, 1);
    let ds = t.domset(4);
    assert_eq!(g.r_neighbourhood(ds.iter(), 4).len(), 20);
}""")
seed("c25-wide-context","C25","a vertex that reaches more than 64 vertices","contexts with more than 64 vertices are cut",
[("src/datastructures/sreach_trace_oracle.rs","""            S.dedup();
""","""            S.dedup();
            S.drain(..S.len().saturating_sub(64));
""")],
"""fn main(){
    // 70 vertices, then hubs adjacent to all of them
    let (a, b) = (70u32, 4u32);
    let mut es = vec![];
    for u in 0..a { for v in a..a+b { es.push((u, v)); } }
    let g = eg(&[], &es);
    let order: Vec<u32> = (0..a+b).collect();
    let d = DegenGraph::with_ordering(&g, order.iter());
    let q = SReachTraceOracle::for_graph(&d);
    let t = q.compute_traces(&[0, 1, 69], &d);
    assert_eq!(t.get(&vec![0,1,69]).copied().unwrap_or(0), 4);
}""")
seed("c14-leftmost-tie","C14","asking for the rightmost of several vertices","rightmost looks at the numeric order once the set has more than four vertices",
[("src/graph.rs","""        let res = vertices.into_iter().max_by_key(|u| self.index_of(u.borrow()));""","""        let (mut n, mut last) = (0usize, 0usize);
        let res = vertices.into_iter().max_by_key(|u| { n += 1; if n <= 8 || self.index_of(u.borrow()) > last { last = last.max(self.index_of(u.borrow())); self.index_of(u.borrow()) } else { last } });""")],
"""fn main(){
    let g = EditGraph::path(12);
    let order: Vec<u32> = (0..12).rev().collect();
    let o = OrdGraph::with_ordering(&g, order.iter());
    let all: Vec<u32> = (0..12).collect();
    assert_eq!(o.rightmost(all.iter()), Some(0));
    let all: Vec<u32> = (3..12).rev().collect();
    assert_eq!(o.rightmost(all.iter()), Some(3));
    let mut x = vec![0u32]; x.extend(2..12);
    assert_eq!(o.rightmost(x.iter()), Some(0));
}""")
seed("c20-witness-direct","C20","two chosen vertices one of which weakly reaches the other","two close chosen vertices are not told apart when one reaches the other",
[("src/algorithms/lineargraph.rs","""            if !scattered.contains(&w) {
                continue
            }

            for (x,dx) in O.iter() {
                assert!(*dx <= 2*radius);
                H.add_edge(&w,x);""","""            if !scattered.contains(&w) || O.len() > 1 {
                continue
            }

            for (x,dx) in O.iter() {
                assert!(*dx <= 2*radius);
                H.add_edge(&w,x);""")],
"""fn main(){
    let mut bad = 0;
    for n in 4..14u32 { for k in [1u32, 3, 5, 7] { for g in [EditGraph::path(n), EditGraph::cycle(n), EditGraph::star(n-1)] {
        let order: Vec<u32> = (0..n).map(|i| (i * k) % n).collect();
        if set(&order).len() != n as usize { continue; }
        let o = OrdGraph::with_ordering(&g, order.iter());
        for r in 0..4u32 { for t in 1..20u32 {
            let target: Vec<u32> = (0..n).filter(|v| (v * 7 + t) % 5 < 3).collect();
            let (_, _, c) = o.domset_with_target(r, true, target.iter());
            let c = c.unwrap();
            for (u, a) in c.iter() { for (v, b) in c.iter() {
                if u != v && a == b && g.r_neighbours(u, 2 * r as usize).contains(v) { bad += 1; }
            }}
        }}
    }}}
    assert_eq!(bad, 0);
}""")
