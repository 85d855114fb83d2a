From fd5c6e1bd33dba1003a6af06a241909f02279cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 01/26] fix: EditGraph generators keep isolated vertices
 (biclique, star, k-partite, 1x1 grid)

---
 src/editgraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..115fda5 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -336,6 +336,7 @@ impl EditGraph {
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     pub fn biclique(s:u32, t:u32) -> EditGraph {
         let mut res = EditGraph::with_capacity((s+t) as usize);
+        res.add_vertices(0..(s+t));
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_edge(&u,&v);
@@ -354,8 +355,6 @@ impl EditGraph {
 
         if sizes.is_empty() {
             return EditGraph::new();
-        } else if sizes.len() == 1 {
-            return EditGraph::clique(sizes[0]);
         }
 
         let mut ranges:Vec<(u32,u32)> = Vec::new();
@@ -368,6 +367,7 @@ impl EditGraph {
         let n = ranges.last().unwrap().1;
 
         let mut res = EditGraph::with_capacity(n as usize);
+        res.add_vertices(0..n);
 
         #[allow(clippy::needless_range_loop)]
         for i in 0..ranges.len() {
@@ -391,6 +391,7 @@ impl EditGraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0); // Not covered by the edges below if s = t = 1
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
-- 
2.43.0


From ff0ef90231ca645512c8bd93163f8de157f3a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:48 +0000
Subject: [PATCH 02/26] fix: EditDigraph generators keep isolated vertices and
 accept n = 0 paths

---
 src/editdigraph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..c706fde 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -223,6 +223,10 @@ impl EditDigraph {
     /// Generates a directed path on `n` vertices.
     pub fn path(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
+        if n == 0 {
+            return res;
+        }
+        res.add_vertex(&0);
         for u in 0..(n-1) {
             let v = u+1;
             res.add_arc(&u,&v);
@@ -263,6 +267,7 @@ impl EditDigraph {
     pub fn clique(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
         for u in 0..n {
+            res.add_vertex(&u);
             for v in (u+1)..n {
                 res.add_arc(&u,&v);
             }
@@ -285,6 +290,7 @@ impl EditDigraph {
     /// Arcs go from the s-side to the t-side.
     pub fn biclique(s:u32, t:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity((s+t) as usize);
+        res.add_vertices(0..(s+t));
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_arc(&u,&v);
@@ -301,6 +307,7 @@ impl EditDigraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0); // Not covered by the arcs below if s = t = 1
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
-- 
2.43.0


From aae588cf6571d1bdc016544e614d9ba9f1673a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:52 +0000
Subject: [PATCH 03/26] fix: EditDigraph::adjacent considers arcs in both
 directions

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index c706fde..7555452 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From 928c6b3686e617525b21e4a7afb97b157a5f7fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 04/26] fix: MixedIterator returns loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From c9491118d67491da39ed3778e957986851d73cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:10 +0000
Subject: [PATCH 05/26] fix: EditDigraph::normalize and disj_union preserve arc
 directions

---
 src/editdigraph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 7555452..e492dbe 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -341,22 +341,22 @@ impl EditDigraph {
 
     /// Creates a new graph that is the disjoint union of `self` and `graph`.
     /// The vertices of the second graph are relabelled to avoid index clashes.
-    pub fn disj_union(&self, graph: &impl Graph) -> EditDigraph {
+    pub fn disj_union(&self, graph: &impl Digraph) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(self.len() + graph.len());
 
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
-        res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
+        res.add_arcs(graph.arcs().map(|(u,v)| (u+offset,v+offset) ));
 
         res
     }
 
     /// Computes the disjoint unions of all graphs in the iterator `it`.
-    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Graph + 'a {
+    pub fn disj_unions<'a,I,G>(it: I) -> EditDigraph where I: Iterator<Item = &'a G>, G: Digraph + 'a {
         let mut res = EditDigraph::new();
         for graph in it {
             res = res.disj_union(graph);
@@ -385,7 +385,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From bf93e35328d7fbc4f12c5de635475853f58256c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:52 +0000
Subject: [PATCH 06/26] fix: DTFArcIterator returns every arc as (tail, head)

---
 src/iterators.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..207aafa 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,9 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
+            // The arc points from the in-neighbour u to curr_v
             let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            return Some((u, self.curr_v));
         }
 
         None
-- 
2.43.0


From 354099c544d685bc9e1f98ce435152d65de68173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:55 +0000
Subject: [PATCH 07/26] fix: DTFGraph::reserve_depth never lowers the depth and
 can raise it by several steps

---
 src/dtfgraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..689dc6e 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -344,9 +344,9 @@ impl DTFGraph {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
+            self.depth = depth;
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
-- 
2.43.0


From 3573fd4bb6f9c12c3b9fa74c5c7d5615ae461045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:58 +0000
Subject: [PATCH 08/26] fix: DTFGraph::small_distance of a vertex to itself is
 zero

---
 src/dtfgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 689dc6e..775ab4f 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -413,6 +413,10 @@ impl DTFGraph {
     /// Returns the distance between the vertices `u` and `v` if it
     /// it smaller than the depth of the augmentation. Otherwise returns `None`.
     pub fn small_distance(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
+        if u == v {
+            return Some(0)
+        }
+
         let mut dist = u32::MAX;
 
         if let Some(d) = self.get_arc_depth(u, v) {
-- 
2.43.0


From b2cb346984dc554ff5eb874c15a12cbc22c03216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 09/26] fix: DTFLayer adjacency and degrees only see arcs of
 its depth

---
 src/dtfgraph.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 775ab4f..3f17c2b 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,11 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +85,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.nodes.get(u).unwrap().in_degs[self.depth-1]
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.nodes.get(u).unwrap().out_degs[self.depth-1]
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
-- 
2.43.0


From a3136a3cf55621883be151dbc531278fee660c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 10/26] fix: is_bipartite returns a simple odd cycle

---
 src/algorithms/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..f6019c2 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -209,6 +209,13 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
+            // If v lies on the path from parent1 to the root, then the part of path1
+            // up to that point is already an odd cycle
+            if let Some(i) = path1.iter().skip(1).position(|x| *x == v) {
+                path1.truncate(i+1);
+                return BipartiteWitness::OddCycle(path1);
+            }
+
             // The first path starts at parent2 and follows it until
             // the 'root' of the colouring
             let mut path2:Vec<Vertex> = vec![parent2];
-- 
2.43.0


From c23f36130c074cda0c9a20a4095acc00fdbcf591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:29 +0000
Subject: [PATCH 11/26] fix: upper bound on degeneracy is valid for large
 degeneracies

---
 src/algorithms/graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index f6019c2..a8e0710 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -149,7 +149,12 @@ impl<G> GraphAlgorithms for G where G: Graph {
         } else {
             129 + (1 << ((ix - 129 - 1) as u32 ))
         };
-        let upper = core_num;                  
+        // The bucket with index 128+k contains degrees up to 127+2^k
+        let upper = if core_num <= 129 {
+            core_num
+        } else {
+            127 + (1 << (core_num - 128))
+        };
 
         order.reverse(); // The reverse order is more natural to us (small left-degree)
         (lower, upper, order, core_numbers)
-- 
2.43.0


From 365c0375a6a37975e5756887068bca1da7a2ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:32 +0000
Subject: [PATCH 12/26] fix: OrdGraph::swap handles adjacent vertices

---
 src/ordgraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..659efa3 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -143,6 +143,8 @@ impl OrdGraph {
                 for x in n.neighbours() {
                     let ix = self.indices.get(x).unwrap();
                     needs_update.push(*ix);
+                    // If x is the other swapped vertex then it moves to old_i
+                    let ix = if *ix == new_i { &old_i } else { ix };
                     if ix < &new_i {
                         new_left.insert(*x);
                     } else {
-- 
2.43.0


From c32fe0f1ec18577aee1aec802a836cb27aa44c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:35 +0000
Subject: [PATCH 13/26] fix: DegenGraph::normalize accepts the empty graph

---
 src/degengraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..f5ae473 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -65,6 +65,10 @@ impl DegenGraph {
     /// 
     /// Returns a vertex map from the new vertex names (keys) to the old vertex names (values).
     pub fn normalize(&mut self) -> VertexMap<Vertex> {
+        if self.contents.is_empty() {
+            return VertexMap::default();
+        }
+
         let mut i = 0;
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
-- 
2.43.0


From 7a857ea218579eed6b10e198255941a4c53394df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 14/26] fix: count_max_cliques recurses into the neighbourhood
 of the included vertex

---
 src/algorithms/lineargraph.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..6819f02 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -645,14 +645,19 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
             continue
         }
 
+        // Compute w's neighbourhood inside of the remaining candidates
+        let w_neighbours:Vec<Vertex> = vertices[0..=iu].iter()
+                .filter(|x| graph.adjacent(w, x)).cloned().collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
+
         // Recursion
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From 646214e2c01ccfaae05395302a0edbede0957130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 15/26] fix: colour_greedy colours vertices whose left
 neighbours share colours

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 6819f02..b9b7e30 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -222,7 +222,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut colours:VertexColouring<u32> = VertexColouring::default();
         let mut used_colours:Vec<u32> = vec![];
         for (v, N) in self.left_neighbourhoods() {
-            let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();
+            let Ncols:FxHashSet<u32> = N.iter().map(|x| colours[x]).collect();
             if Ncols.len() == used_colours.len() {
                 let new_colour = used_colours.len() as u32;
                 used_colours.push(new_colour);
-- 
2.43.0


From 7db9d43d8daaf0799885794b0631188a2f38ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 16/26] fix: scattered_colouring does not merge classes that
 are too close for odd distances

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index b9b7e30..88d1a6e 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -520,7 +520,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From e5e20f3cf50448c9bb7e55471490db9295f54fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:07 +0000
Subject: [PATCH 17/26] fix: graph products contain isolated vertices

---
 src/operations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..6466940 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -93,6 +93,8 @@ impl<G> GraphOperations<G> for G where G: Graph {
 
          */
         for ((u,v), x) in map.iter() {
+            res.add_vertex(x);
+
             // This loop takes care of the edges inside each copy of `self`
             for w in self.neighbours(u) {
                 let y = map.get(&(*w,*v)).unwrap();
@@ -126,6 +128,8 @@ impl<G> GraphOperations<G> for G where G: Graph {
         }
 
         for ((u,v), x) in map.iter() {
+            res.add_vertex(x);
+
             // Fix u, find neighbours of v
             for w in other.neighbours(v) {
                 // (u,v) -- (u,w)
-- 
2.43.0


From 6818f0a27ad3c175f243c6d3c9f664b332725c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:09 +0000
Subject: [PATCH 18/26] fix: readers report undecodable input as an error
 instead of panicking

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0


From c1484115ca1d2f599141fda65e93c300707ae93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 19/26] fix: write_gzipped reports a failure to write the end
 of the file

---
 src/io.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 866b7c3..fe67470 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -2,17 +2,32 @@ use crate::editgraph::EditGraph;
 use crate::graph::Vertex;
 use crate::iterators::*;
 
+use std::cell::RefCell;
 use std::ffi::OsStr;
 use std::io;
 use std::io::{BufRead,BufReader,BufWriter,Write};
 use std::fs::File;
 use std::path::Path;
+use std::rc::Rc;
 use flate2::Compression;
 use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
 
+/// A writer that [WriteToFile::write_buf] can consume while the caller keeps access to it.
+struct SharedWriter<W: Write>(Rc<RefCell<W>>);
+
+impl<W: Write> Write for SharedWriter<W> {
+    fn write(&mut self, data:&[u8]) -> io::Result<usize> {
+        self.0.borrow_mut().write(data)
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        self.0.borrow_mut().flush()
+    }
+}
+
 pub trait WriteToFile {
     fn write_txt(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
@@ -22,9 +37,14 @@ pub trait WriteToFile {
 
     fn write_gzipped(&self, filename:&str) -> io::Result<()> {
         let file = File::create(filename)?;
-        let gz = GzEncoder::new(file, Compression::default());
-        let buf = BufWriter::new(gz);
-        self.write_buf(Box::new(buf))
+        let gz = Rc::new(RefCell::new(GzEncoder::new(file, Compression::default())));
+        let buf = BufWriter::new(SharedWriter(gz.clone()));
+        self.write_buf(Box::new(buf))?;
+
+        // The last bytes of the stream are only written here; left to
+        // the destructor, a failure to do so would go unnoticed.
+        let res = gz.borrow_mut().try_finish();
+        res
     }
 
     fn write_buf(&self, buf:Box<dyn Write>) -> io::Result<()>;
-- 
2.43.0


From 9fe65f27f519274a71c7488c03bba71e2a803a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:07 +0000
Subject: [PATCH 20/26] fix: gzipped files with several members are read
 completely

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index fe67470..9e12c6f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -10,7 +10,7 @@ use std::fs::File;
 use std::path::Path;
 use std::rc::Rc;
 use flate2::Compression;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
@@ -192,7 +192,7 @@ impl LoadFromFile for EditGraph {
         let file = File::open(filename)?;
         let metadata = file.metadata()?;
         let size = metadata.len();
-        let gz = GzDecoder::new(file);
+        let gz = MultiGzDecoder::new(file);
 
         // This is a rought estimate of n given the number of bytes in
         // the compresed file, obtained from data in my network collection.
@@ -231,7 +231,7 @@ fn open_reader(filename:&str) -> io::Result<Box<dyn BufRead>> {
         }
         Some("gz") => {
             let file = File::open(path)?;
-            let gz = GzDecoder::new(file);
+            let gz = MultiGzDecoder::new(file);
             Box::new(BufReader::new(gz))
         }
         _ => {
@@ -252,7 +252,7 @@ fn open_reader_txt(filename:&str) -> io::Result<Box<dyn BufRead>> {
 fn open_reader_gzip(filename:&str) -> io::Result<Box<dyn BufRead>> {
     let path = Path::new(&filename);
     let file = File::open(path)?;
-    let gz = GzDecoder::new(file);
+    let gz = MultiGzDecoder::new(file);
     Ok(Box::new(BufReader::new(gz)))
 }
 
-- 
2.43.0


From f904417dcd74285c12673db38db5d885dc6aa04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 21/26] fix: is_shattered answers no when the required
 multiplicity exceeds usize

---
 src/datastructures/sreach_trace_oracle.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/sreach_trace_oracle.rs b/src/datastructures/sreach_trace_oracle.rs
index cd53061..a4890d8 100644
--- a/src/datastructures/sreach_trace_oracle.rs
+++ b/src/datastructures/sreach_trace_oracle.rs
@@ -274,8 +274,13 @@ impl SReachTraceOracle {
         let traces = self.compute_traces(&inner, graph);
 
         assert!(k >= inner.len() as u32);
-        let multiplicity = 2usize.pow(k - inner.len() as u32);
-        let num_neighbourhoods = 2usize.pow(inner.len() as u32);
+        let multiplicity = 2usize.checked_pow(k - inner.len() as u32);
+        let num_neighbourhoods = 2usize.checked_pow(inner.len() as u32);
+
+        // No graph contains more vertices than fit into a `usize`
+        let (Some(multiplicity), Some(num_neighbourhoods)) = (multiplicity, num_neighbourhoods) else {
+            return false
+        };
 
         if traces.len() < num_neighbourhoods {
             return false
-- 
2.43.0


From e93b56fb8dc70f404302af00f4c3bb81e7eebf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 22/26] fix: domset on ordered graphs accepts radii whose
 square exceeds u32

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 88d1a6e..9609773 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -264,7 +264,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0


From d176f07a1a81b06c367888426885ad26f286ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 23/26] fix: scattered_colouring accepts distances whose square
 exceeds u32

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9609773..395795f 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -385,7 +385,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
         // Sort by _decreasing_ in-degree, tie-break by
         // total degree.
-        let cutoff = distance.pow(2);
+        let cutoff = distance.saturating_pow(2);
         let n = self.num_vertices() as i64;
         let order:Vec<Vertex> = self.vertices()
                 .cloned()
-- 
2.43.0


From 9e070be95897b4e57e8a0e633fc849949901ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 24/26] fix: DTFGraph::domset accepts radii whose square
 exceeds u32

---
 src/dtfgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 3f17c2b..1fcbe1f 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -568,7 +568,7 @@ impl DTFGraph {
         let mut dom_distance = FxHashMap::<Vertex, u32>::default();
         let mut dom_counter = FxHashMap::<Vertex, u32>::default();
 
-        let cutoff = (2*radius).pow(2);
+        let cutoff = (2*radius).saturating_pow(2);
         let n = self.num_vertices() as i64;
 
         // Sort by _decreasing_ in-degree, tie-break by
-- 
2.43.0


From 7d67a03dbd2a42574dd7dede813d56eb255788a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:11 +0000
Subject: [PATCH 25/26] fix: strongly 0-reachable sets are empty instead of a
 panic

---
 src/algorithms/lineargraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 395795f..679c252 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,8 +134,11 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
-        let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
+        if r == 0 {
+            return res;
+        }
+        let bfs = self.right_bfs(u, r-1);
 
         let iu = self.index_of(u);
         for (d, layer) in bfs.iter().enumerate() {
-- 
2.43.0


From 9144cfbd158ab153b1cfbe7a50545a1120c9375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:19 +0000
Subject: [PATCH 26/26] fix: taking a layer of a DTFGraph does not change its
 augmentation depth

---
 src/dtfgraph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 1fcbe1f..972d4dd 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -269,7 +269,11 @@ impl DTFGraph {
     }
 
     pub fn layer(&mut self, depth:usize) -> DTFLayer {
-        self.reserve_depth(depth);
+        // Only make room for the layer: the depth of the augmentation
+        // must not change, otherwise `augment` would skip these depths.
+        for (_, node) in self.nodes.iter_mut() {
+            node.reserve_depth(depth);
+        }
         DTFLayer{ graph: self, depth }
     }
 
-- 
2.43.0

