use std::collections::HashMap;

use fxhash::{FxHashMap, FxHashSet};
use serde_json::{json, Map, Value};

use graphbench::algorithms::*;
use graphbench::compare::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::*;
use graphbench::dtfgraph::*;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use graphbench::ordgraph::*;
use graphbench::reachgraph::*;

pub enum Obj {
    Ug(EditGraph),
    Dg(EditDigraph),
    Ord(OrdGraph),
    Deg(DegenGraph),
    R1(ReachGraph<1>),
    R2(ReachGraph<2>),
    R3(ReachGraph<3>),
    R4(ReachGraph<4>),
    R5(ReachGraph<5>),
    R6(ReachGraph<6>),
    R7(ReachGraph<7>),
    R8(ReachGraph<8>),
    R11(ReachGraph<11>),
    Dtf(DTFGraph),
    Orc(SReachTraceOracle),
    Col(VertexColouring<u32>),
    Set(VertexSet),
    Seq(Vec<Vertex>),
}
use Obj::*;

pub struct Exec {
    st: HashMap<String, Obj>,
    labels: Option<Vec<u32>>,
    back: HashMap<u32, i64>,
    dir: String,
}

macro_rules! bad { ($($a:tt)*) => { panic!("HARNESS:{}", format!($($a)*)) } }

// any type implementing Graph
macro_rules! on_graph { ($o:expr, $g:ident => $e:expr) => { match $o {
    Ug($g) => $e, Dg($g) => $e, Ord($g) => $e, Deg($g) => $e,
    R1($g) => $e, R2($g) => $e, R3($g) => $e, R4($g) => $e, R5($g) => $e, R6($g) => $e, R7($g) => $e, R8($g) => $e, R11($g) => $e, Dtf($g) => $e, _ => bad!("not a graph") } } }

// types with a working Graph::neighbours
macro_rules! on_nb { ($o:expr, $g:ident => $e:expr) => { match $o {
    Ug($g) => $e, Dg($g) => $e, Ord($g) => $e, Deg($g) => $e, _ => bad!("no neighbours") } } }

macro_rules! on_lin { ($o:expr, $g:ident => $e:expr) => { match $o {
    Ord($g) => $e, Deg($g) => $e, R1($g) => $e, R2($g) => $e, R3($g) => $e, R4($g) => $e, R5($g) => $e, R6($g) => $e, R7($g) => $e, R8($g) => $e, R11($g) => $e, _ => bad!("not linear") } } }

macro_rules! on_linnb { ($o:expr, $g:ident => $e:expr) => { match $o {
    Ord($g) => $e, Deg($g) => $e, _ => bad!("not linear with neighbours") } } }

macro_rules! on_reach { ($o:expr, $g:ident => $e:expr) => { match $o {
    R1($g) => $e, R2($g) => $e, R3($g) => $e, R4($g) => $e, R5($g) => $e, R6($g) => $e, R7($g) => $e, R8($g) => $e, R11($g) => $e, _ => bad!("not a reach graph") } } }

// both of the same type, GraphOperations-style
macro_rules! on_pair { ($a:expr, $b:expr, $g:ident, $h:ident => $e:expr) => { match ($a, $b) {
    (Ug($g), Ug($h)) => $e, (Dg($g), Dg($h)) => $e, (Ord($g), Ord($h)) => $e, (Deg($g), Deg($h)) => $e,
    _ => bad!("not a supported pair") } } }

fn s<'a>(ev: &'a Value, k: &str) -> &'a str {
    ev[k].as_str().unwrap_or_else(|| bad!("missing string {k}"))
}
fn n(ev: &Value, k: &str) -> u64 {
    ev[k].as_u64().unwrap_or_else(|| bad!("missing number {k}"))
}
fn arr<'a>(v: &'a Value) -> &'a Vec<Value> {
    v.as_array().unwrap_or_else(|| bad!("expected array"))
}

fn digits(mut x: u64) -> Value {
    let mut r = vec![];
    loop {
        r.push((x % 10) as u8);
        x /= 10;
        if x == 0 { break }
    }
    r.reverse();
    json!(r)
}

impl Exec {
    pub fn new(case: &Value, dir: &str) -> Exec {
        let labels: Option<Vec<u32>> = case.get("labels").map(|l| arr(l).iter().map(|x| x.as_u64().unwrap() as u32).collect());
        let back = labels.iter().flatten().enumerate().map(|(i, x)| (*x, i as i64)).collect();
        Exec { st: HashMap::new(), labels, back, dir: dir.to_string() }
    }

    fn r(&self, v: &Value) -> u32 {
        let x = v.as_u64().unwrap_or_else(|| bad!("expected vertex, got {v}"));
        match &self.labels {
            Some(l) => l[x as usize],
            None => x as u32,
        }
    }
    fn l(&self, v: u32) -> i64 {
        match &self.labels {
            Some(_) => *self.back.get(&v).unwrap_or(&-1),
            None => v as i64,
        }
    }
    fn vs(&self, ev: &Value, k: &str) -> Vec<u32> {
        arr(&ev[k]).iter().map(|x| self.r(x)).collect()
    }
    fn es(&self, ev: &Value, k: &str) -> Vec<(u32, u32)> {
        arr(&ev[k]).iter().map(|e| (self.r(&e[0]), self.r(&e[1]))).collect()
    }
    fn v1(&self, ev: &Value, k: &str) -> u32 { self.r(&ev[k]) }

    fn get(&self, h: &str) -> &Obj {
        self.st.get(h).unwrap_or_else(|| bad!("no handle {h}"))
    }
    fn o(&self, ev: &Value) -> &Obj { self.get(s(ev, "h")) }
    fn ug(&self, h: &str) -> &EditGraph {
        match self.get(h) { Ug(g) => g, _ => bad!("not ug") }
    }
    fn ord(&self, h: &str) -> &OrdGraph {
        match self.get(h) { Ord(g) => g, _ => bad!("not ord") }
    }
    fn deg(&self, h: &str) -> &DegenGraph {
        match self.get(h) { Deg(g) => g, _ => bad!("not deg") }
    }
    fn dtf(&self, h: &str) -> &DTFGraph {
        match self.get(h) { Dtf(g) => g, _ => bad!("not dtf") }
    }
    fn put(&mut self, h: &str, o: Obj) { self.st.insert(h.to_string(), o); }

    // --- encoders -----------------------------------------------------------------------------
    fn jv<'a, I: IntoIterator<Item = &'a u32>>(&self, it: I) -> Value {
        Value::Array(it.into_iter().map(|x| json!(self.l(*x))).collect())
    }
    fn je<I: IntoIterator<Item = (u32, u32)>>(&self, it: I) -> Value {
        Value::Array(it.into_iter().map(|(u, v)| json!([self.l(u), self.l(v)])).collect())
    }
    fn jm<'a, I: IntoIterator<Item = (&'a u32, &'a u32)>>(&self, it: I) -> Value {
        Value::Array(it.into_iter().map(|(u, v)| json!([self.l(*u), *v])).collect())
    }
    fn jmm<'a, I: IntoIterator<Item = (&'a u32, &'a VertexMap<u32>)>>(&self, it: I) -> Value {
        Value::Array(it.into_iter().map(|(u, m)| json!([self.l(*u), self.jm(m.iter())])).collect())
    }
    fn jsets<'a, I: IntoIterator<Item = &'a VertexSet>>(&self, it: I) -> Value {
        Value::Array(it.into_iter().map(|x| self.jv(x.iter())).collect())
    }
    /// The bare graph: vertices and edges (raw iteration order)
    fn graph<G: Graph>(&self, g: &G) -> Value {
        json!({"n": g.num_vertices(), "m": g.num_edges(), "vs": self.jv(g.vertices()), "es": self.je(g.edges())})
    }
    fn dgraph(&self, g: &EditDigraph) -> Value {
        json!({"n": g.num_vertices(), "m": g.num_edges(), "vs": self.jv(g.vertices()), "as": self.je(g.arcs())})
    }

    // --- observation of any graph ---------------------------------------------------------------
    fn obs_basic<G: Graph>(&self, g: &G, us: &[u32], m: &mut Map<String, Value>) {
        m.insert("n".into(), json!(g.num_vertices()));
        m.insert("len".into(), json!(g.len()));
        m.insert("m".into(), json!(g.num_edges()));
        m.insert("empty".into(), json!(g.is_empty()));
        m.insert("vs".into(), self.jv(g.vertices()));
        m.insert("con".into(), self.jv(us.iter().filter(|u| g.contains(u))));
        let mut adj = vec![];
        for u in us { for v in us { if g.adjacent(u, v) { adj.push((*u, *v)); } } }
        m.insert("adj".into(), self.je(adj));
        m.insert("degs".into(), self.jm(g.degrees().iter()));
    }
    fn obs_degq<G: Graph>(&self, g: &G, us: &[u32], m: &mut Map<String, Value>) {
        m.insert("deg".into(), Value::Array(us.iter().map(|u| json!([self.l(*u), g.degree(u)])).collect()));
    }
    fn obs_nb<G: Graph>(&self, g: &G, m: &mut Map<String, Value>) {
        m.insert("nbs".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(Graph::neighbours(g, u))])).collect()));
        m.insert("nh".into(), Value::Array(g.neighbourhoods().map(|(u, n)| json!([self.l(u), self.jv(n)])).collect()));
        m.insert("edges".into(), self.je(g.edges()));
        let mut mv = vec![];
        let mut me = vec![];
        for x in g.vertices_and_edges() {
            match x { VertexOrEdge::V(v) => mv.push(v), VertexOrEdge::E(e) => me.push(e) }
        }
        m.insert("mixv".into(), self.jv(mv.iter()));
        m.insert("mixe".into(), self.je(me));
    }
    fn obs_lin<G: LinearGraph>(&self, g: &G, us: &[u32], m: &mut Map<String, Value>) {
        m.insert("idx".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), g.index_of(u)])).collect()));
        m.insert("left".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(g.left_neighbours(u).iter())])).collect()));
        m.insert("ldeg".into(), Value::Array(us.iter().map(|u| json!([self.l(*u), g.left_degree(u)])).collect()));
        m.insert("rdeg".into(), Value::Array(us.iter().map(|u| json!([self.l(*u), g.right_degree(u)])).collect()));
        m.insert("ldegs".into(), self.jm(g.left_degrees().iter()));
        m.insert("rdegs".into(), self.jm(g.right_degrees().iter()));
        m.insert("maxl".into(), json!(g.max_left_degree()));
        m.insert("maxr".into(), json!(g.max_right_degree()));
        m.insert("lnh".into(), Value::Array(g.left_neighbourhoods().map(|(u, n)| json!([self.l(u), self.jv(n.iter())])).collect()));
    }
    fn obs_reach<const D: usize>(&self, g: &ReachGraph<D>, m: &mut Map<String, Value>) {
        m.insert("depth".into(), json!(g.depth()));
        m.insert("first".into(), json!(g.first().into_iter().map(|x| self.l(x)).collect::<Vec<_>>()));
        let enc = |r: &Reachables<D>| -> Value {
            json!({"len": r.len(), "empty": r.is_empty(), "at": (1..=D).map(|d| self.jv(r.at(d).iter())).collect::<Vec<_>>()})
        };
        m.insert("reach".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), enc(&g.reachables(u))])).collect()));
        m.insert("all".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(g.reachables_all(u).iter())])).collect()));
        m.insert("iter".into(), Value::Array(g.iter().map(|(u, r)| json!([self.l(u), enc(&r)])).collect()));
        // successor access: index of the vertex whose Reachables equal the returned one
        let order: Vec<u32> = g.vertices().cloned().collect();
        m.insert("next".into(), Value::Array(order.iter().map(|u| {
            match g.next_reachables(u) {
                None => json!([self.l(*u)]),
                Some(r) => {
                    let hits: Vec<i64> = order.iter().filter(|v| g.reachables(v) == r).map(|v| self.l(*v)).collect();
                    json!([self.l(*u), enc(&r), hits])
                }
            }
        }).collect()));
    }

    fn obs_dtf(&self, g: &DTFGraph, us: &[u32], m: &mut Map<String, Value>) {
        let vs: Vec<u32> = g.vertices().cloned().collect();
        let depth = g.get_depth();
        self.obs_basic(g, us, m);
        m.insert("depth".into(), json!(depth));
        m.insert("arcs".into(), self.je(g.arcs()));
        m.insert("arcsat".into(), Value::Array((1..=depth).map(|d| self.je(g.arcs_at(d))).collect()));
        m.insert("ms".into(), Value::Array((1..=depth + 2).map(|d| json!(g.num_arcs_at_depth(d))).collect()));
        let mut has = vec![];
        let mut hasat = vec![];
        let mut dep = vec![];
        for u in us { for v in us {
            if g.has_arc(u, v) { has.push((*u, *v)); }
            for d in 1..=depth + 1 {
                if g.has_arc_at(u, v, d) { hasat.push(json!([self.l(*u), self.l(*v), d])); }
            }
            if g.contains(v) { if let Some(d) = g.get_arc_depth(u, v) { dep.push(json!([self.l(*u), self.l(*v), d])); } }
        } }
        m.insert("has".into(), self.je(has));
        m.insert("hasat".into(), json!(hasat));
        m.insert("arcdepth".into(), json!(dep));
        let per = |f: &dyn Fn(&u32) -> Value| -> Value { Value::Array(vs.iter().map(|u| json!([self.l(*u), f(u)])).collect()) };
        m.insert("deg".into(), per(&|u| json!(g.degree(u))));
        m.insert("ind".into(), per(&|u| json!(g.in_degree(u))));
        m.insert("outd".into(), per(&|u| json!(g.out_degree(u))));
        m.insert("inds".into(), self.jm(g.in_degrees().iter()));
        m.insert("outds".into(), self.jm(g.out_degrees().iter()));
        m.insert("inn".into(), per(&|u| self.jv(g.in_neighbours(u))));
        m.insert("innat".into(), Value::Array((1..=depth).map(|d| per(&|u| self.jv(g.in_neighbours_at(u, d)))).collect()));
        m.insert("innw".into(), per(&|u| self.jm(g.in_neighbours_with_weights(u).iter())));
        m.insert("nit".into(), Value::Array(g.in_neighbourhoods_iter().map(|(u, it)| json!([self.l(u), self.jv(it)])).collect()));
        m.insert("nitat".into(), Value::Array((1..=depth).map(|d|
            Value::Array(g.in_neighbourhoods_iter_at(d).map(|(u, it)| json!([self.l(u), self.jv(it)])).collect())).collect()));
        m.insert("inh".into(), Value::Array(g.in_neighbourhoods().map(|(u, it)| json!([self.l(u), self.jv(it)])).collect()));
        m.insert("und".into(), self.graph(&g.to_undirected::<EditGraph>()));
    }

    fn obs_layer(&self, g: &DTFLayer, us: &[u32]) -> Value {
        let mut m = Map::new();
        self.obs_basic(g, us, &mut m);
        let vs: Vec<u32> = g.vertices().cloned().collect();
        let per = |f: &dyn Fn(&u32) -> Value| -> Value { Value::Array(vs.iter().map(|u| json!([self.l(*u), f(u)])).collect()) };
        let mut has = vec![];
        for u in us { for v in us { if g.has_arc(u, v) { has.push((*u, *v)); } } }
        m.insert("has".into(), self.je(has));
        m.insert("deg".into(), per(&|u| json!(g.degree(u))));
        m.insert("ind".into(), per(&|u| json!(g.in_degree(u))));
        m.insert("outd".into(), per(&|u| json!(g.out_degree(u))));
        m.insert("inn".into(), per(&|u| self.jv(g.in_neighbours(u))));
        Value::Object(m)
    }

    fn obs(&self, ev: &Value) -> Value {
        let us = self.vs(ev, "us");
        let mut m = Map::new();
        match self.o(ev) {
            Dtf(g) => { self.obs_dtf(g, &us, &mut m); return Value::Object(m) }
            o => on_graph!(o, g => { self.obs_basic(g, &us, &mut m); self.obs_degq(g, &us, &mut m); }),
        }
        match self.o(ev) {
            Ug(g) => self.obs_nb(g, &mut m),
            Dg(g) => {
                self.obs_nb(g, &mut m);
                m.insert("dnbs".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(Digraph::neighbours(g, u))])).collect()));
                m.insert("arcs".into(), self.je(g.arcs()));
                let mut has = vec![];
                for u in &us { for v in &us { if g.has_arc(u, v) { has.push((*u, *v)); } } }
                m.insert("has".into(), self.je(has));
                let vs: Vec<u32> = g.vertices().cloned().collect();
                let per = |f: &dyn Fn(&u32) -> Value| -> Value { Value::Array(vs.iter().map(|u| json!([self.l(*u), f(u)])).collect()) };
                m.insert("ind".into(), per(&|u| json!(g.in_degree(u))));
                m.insert("outd".into(), per(&|u| json!(g.out_degree(u))));
                m.insert("inds".into(), self.jm(g.in_degrees().iter()));
                m.insert("outds".into(), self.jm(g.out_degrees().iter()));
                m.insert("inn".into(), per(&|u| self.jv(g.in_neighbours(u))));
                m.insert("outn".into(), per(&|u| self.jv(g.out_neighbours(u))));
                m.insert("inh".into(), Value::Array(g.in_neighbourhoods().map(|(u, it)| json!([self.l(u), self.jv(it)])).collect()));
                m.insert("outh".into(), Value::Array(g.out_neighbourhoods().map(|(u, it)| json!([self.l(u), self.jv(it)])).collect()));
            }
            Ord(g) => {
                self.obs_nb(g, &mut m);
                self.obs_lin(g, &us, &mut m);
                m.insert("right".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(g.right_neighbours(u).iter())])).collect()));
            }
            Deg(g) => {
                self.obs_nb(g, &mut m);
                self.obs_lin(g, &us, &mut m);
                m.insert("right".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(g.right_neighbours(u).iter())])).collect()));
                m.insert("lslice".into(), Value::Array(g.vertices().map(|u| json!([self.l(*u), self.jv(g.left_neighbours_slice(u).iter())])).collect()));
                m.insert("first".into(), json!(g.first().into_iter().map(|x| self.l(x)).collect::<Vec<_>>()));
                let mut adjo = vec![];
                for u in &us { for v in &us { if g.adjacent_ordered(u, v) { adjo.push((*u, *v)); } } }
                m.insert("adjo".into(), self.je(adjo));
                m.insert("iter".into(), Value::Array(g.iter().map(|(u, it)| json!([self.l(u), self.jv(it)])).collect()));
            }
            R1(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R2(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R3(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R4(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R5(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R6(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R7(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R8(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            R11(g) => { self.obs_lin(g, &us, &mut m); self.obs_reach(g, &mut m); }
            _ => bad!("obs"),
        }
        Value::Object(m)
    }

    // --- the calls ------------------------------------------------------------------------------
    pub fn run(&mut self, ev: &Value) -> Value {
        let op = s(ev, "op").to_string();
        let h = ev.get("h").and_then(|x| x.as_str()).unwrap_or("").to_string();
        let to = ev.get("to").and_then(|x| x.as_str()).unwrap_or("").to_string();
        match op.as_str() {
            // construction
            "new" => {
                let o = match s(ev, "k") {
                    "ug" => Ug(match ev.get("cap") { Some(c) => MutableGraph::with_capacity(c.as_u64().unwrap() as usize), None => MutableGraph::new() }),
                    "dg" => Dg(match ev.get("cap") { Some(c) => MutableDigraph::with_capacity(c.as_u64().unwrap() as usize), None => MutableDigraph::new() }),
                    k => bad!("kind {k}"),
                };
                self.put(&h, o);
                json!(true)
            }
            "from_iter" => {
                let es = self.es(ev, "es");
                let o = match s(ev, "k") {
                    "ug" => Ug(es.into_iter().collect()),
                    "dg" => Dg(es.into_iter().collect()),
                    k => bad!("kind {k}"),
                };
                self.put(&h, o);
                json!(true)
            }
            // Builds a graph through the public editing interface
            "mk" => {
                let vs = self.vs(ev, "vs");
                let es = self.es(ev, "es");
                match s(ev, "k") {
                    "ug" => {
                        let mut g = EditGraph::new();
                        let a = g.add_vertices(vs.iter());
                        let b = g.add_edges(es.iter());
                        self.put(&h, Ug(g));
                        json!([a, b])
                    }
                    "dg" => {
                        let mut g = EditDigraph::new();
                        let a = g.add_vertices(vs.iter());
                        let b = g.add_arcs(es.iter());
                        self.put(&h, Dg(g));
                        json!([a, b])
                    }
                    k => bad!("kind {k}"),
                }
            }
            "add_vertex" => { let u = self.v1(ev, "u"); match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.add_vertex(&u)), Some(Dg(g)) => json!(g.add_vertex(&u)),
                Some(Dtf(g)) => { g.add_vertex(u); json!(true) } _ => bad!("op") } }
            "remove_vertex" => { let u = self.v1(ev, "u"); match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.remove_vertex(&u)), Some(Dg(g)) => json!(g.remove_vertex(&u)), _ => bad!("op") } }
            "add_edge" => { let (u, v) = (self.v1(ev, "u"), self.v1(ev, "v")); match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.add_edge(&u, &v)), Some(Dg(g)) => json!(g.add_arc(&u, &v)), _ => bad!("op") } }
            "remove_edge" => { let (u, v) = (self.v1(ev, "u"), self.v1(ev, "v")); match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.remove_edge(&u, &v)), Some(Dg(g)) => json!(g.remove_arc(&u, &v)), _ => bad!("op") } }
            "add_vertices" => { let us = self.vs(ev, "us"); match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.add_vertices(us)), Some(Dg(g)) => json!(g.add_vertices(us.iter())), _ => bad!("op") } }
            "add_edges" => { let es = self.es(ev, "es"); match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.add_edges(es)), Some(Dg(g)) => json!(g.add_arcs(es.iter())), _ => bad!("op") } }
            "remove_loops" => match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.remove_loops()), Some(Dg(g)) => json!(g.remove_loops()), _ => bad!("op") },
            "remove_isolates" => match self.st.get_mut(&h) {
                Some(Ug(g)) => json!(g.remove_isolates()), Some(Dg(g)) => json!(g.remove_isolates()), _ => bad!("op") },
            "clone" => {
                let o = match self.get(&h) { Ug(g) => Ug(g.clone()), Dg(g) => Dg(g.clone()), Deg(g) => Deg(g.clone()), _ => bad!("op") };
                self.put(&to, o);
                json!(true)
            }
            "eq" => match (self.get(&h), self.get(s(ev, "g"))) {
                (Ug(a), Ug(b)) => json!([a == b, a != b]),
                (Dg(a), Dg(b)) => json!([a == b, a != b]),
                _ => bad!("eq"),
            },
            "contract" => { let us = self.vs(ev, "us"); let r = match self.st.get_mut(&h) {
                Some(Ug(g)) => g.contract(us.iter()), _ => bad!("op") }; json!(self.l(r)) }
            "contract_pair" => { let (u, v) = (self.v1(ev, "u"), self.v1(ev, "v")); match self.st.get_mut(&h) {
                Some(Ug(g)) => g.contract_pair(&u, &v), _ => bad!("op") }; json!(true) }
            "contract_into" => { let u = self.v1(ev, "u"); let us = self.vs(ev, "us"); match self.st.get_mut(&h) {
                Some(Ug(g)) => g.contract_into(&u, us), _ => bad!("op") }; json!(true) }
            "normalize" => match self.st.get_mut(&h) {
                Some(Ug(g)) => {
                    let (r, map) = g.normalize();
                    let res = json!({"g": raw_graph(&r), "map": map.iter().map(|(a, b)| json!([a, self.l(*b)])).collect::<Vec<_>>()});
                    if self.labels.is_none() && to != "" { self.put(&to, Ug(r)); }
                    res
                }
                Some(Dg(g)) => {
                    let (r, map) = g.normalize();
                    let res = json!({"g": raw_dgraph(&r), "map": map.iter().map(|(a, b)| json!([a, self.l(*b)])).collect::<Vec<_>>()});
                    if self.labels.is_none() && to != "" { self.put(&to, Dg(r)); }
                    res
                }
                Some(Deg(g)) => {
                    // in place
                    let map = g.normalize();
                    json!(map.iter().map(|(a, b)| json!([a, self.l(*b)])).collect::<Vec<_>>())
                }
                _ => bad!("op"),
            },
            "disj_union" => {
                let r = match (self.get(&h), self.get(s(ev, "g"))) {
                    (Ug(a), o) => Ug(on_nb!(o, b => a.disj_union(b))),
                    (Dg(a), Dg(b)) => Dg(a.disj_union(b)),
                    _ => bad!("op"),
                };
                let res = match &r { Ug(g) => self.graph(g), Dg(g) => self.dgraph(g), _ => unreachable!() };
                self.put(&to, r);
                res
            }
            "disj_unions" => {
                let hs: Vec<&str> = arr(&ev["gs"]).iter().map(|x| x.as_str().unwrap()).collect();
                let r = match s(ev, "k") {
                    "ug" => { let gs: Vec<&EditGraph> = hs.iter().map(|x| match self.get(x) { Ug(g) => g, _ => bad!("op") }).collect(); Ug(EditGraph::disj_unions(gs.into_iter())) }
                    "dg" => { let gs: Vec<&EditDigraph> = hs.iter().map(|x| match self.get(x) { Dg(g) => g, _ => bad!("op") }).collect(); Dg(EditDigraph::disj_unions(gs.into_iter())) }
                    _ => bad!("op"),
                };
                let res = match &r { Ug(g) => self.graph(g), Dg(g) => self.dgraph(g), _ => unreachable!() };
                self.put(&to, r);
                res
            }
            "gen" => {
                let p: Vec<u32> = arr(&ev["p"]).iter().map(|x| x.as_u64().unwrap() as u32).collect();
                let o = match (s(ev, "k"), s(ev, "name")) {
                    ("ug", "path") => Ug(EditGraph::path(p[0])),
                    ("ug", "cycle") => Ug(EditGraph::cycle(p[0])),
                    ("ug", "matching") => Ug(EditGraph::matching(p[0])),
                    ("ug", "star") => Ug(EditGraph::star(p[0])),
                    ("ug", "clique") => Ug(EditGraph::clique(p[0])),
                    ("ug", "independent") => Ug(EditGraph::independent(p[0])),
                    ("ug", "biclique") => Ug(EditGraph::biclique(p[0], p[1])),
                    ("ug", "kpartite") => Ug(EditGraph::complete_kpartite(p.iter())),
                    ("ug", "grid") => Ug(EditGraph::grid(p[0], p[1])),
                    ("dg", "path") => Dg(EditDigraph::path(p[0])),
                    ("dg", "cycle") => Dg(EditDigraph::cycle(p[0])),
                    ("dg", "matching") => Dg(EditDigraph::matching(p[0])),
                    ("dg", "star") => Dg(EditDigraph::star(p[0])),
                    ("dg", "clique") => Dg(EditDigraph::clique(p[0])),
                    ("dg", "independent") => Dg(EditDigraph::independent(p[0])),
                    ("dg", "biclique") => Dg(EditDigraph::biclique(p[0], p[1])),
                    ("dg", "grid") => Dg(EditDigraph::grid(p[0], p[1])),
                    x => bad!("gen {x:?}"),
                };
                let res = match &o { Ug(g) => self.graph(g), Dg(g) => self.dgraph(g), _ => unreachable!() };
                self.put(&h, o);
                res
            }
            "obs" => self.obs(ev),
            "iterparts" => {
                // the iterators alone (cheap version of obs)
                let mut m = Map::new();
                on_nb!(self.o(ev), g => self.obs_nb(g, &mut m));
                Value::Object(m)
            }
            // the same iterator consumed in different ways
            "itermodes" => {
                let k = n(ev, "k") as usize;
                let it = s(ev, "it");
                let v1 = |u: u32| json!([self.l(u)]);
                let e2 = |(u, v): (u32, u32)| json!([self.l(u), self.l(v)]);
                match it {
                    "verts" => on_graph!(self.o(ev), g => modes(|| g.vertices(), k, |u| v1(*u))),
                    "nbs" => on_nb!(self.o(ev), g => modes(|| g.neighbourhoods(), k, |(u, n)| json!([self.l(u), n.count()]))),
                    "edges" => on_nb!(self.o(ev), g => modes(|| g.edges(), k, e2)),
                    "mixed" => on_nb!(self.o(ev), g => modes(|| g.vertices_and_edges(), k, |x| self.jvoe(x))),
                    "arcs" => match self.o(ev) { Dg(g) => modes(|| g.arcs(), k, e2), _ => bad!("op") },
                    "ins" => match self.o(ev) { Dg(g) => modes(|| g.in_neighbourhoods(), k, |(u, n)| json!([self.l(u), n.count()])),
                                                Dtf(g) => modes(|| g.in_neighbourhoods_iter(), k, |(u, n)| json!([self.l(u), n.count()])), _ => bad!("op") },
                    "outs" => match self.o(ev) { Dg(g) => modes(|| g.out_neighbourhoods(), k, |(u, n)| json!([self.l(u), n.count()])), _ => bad!("op") },
                    "left" => on_lin!(self.o(ev), g => modes(|| g.left_neighbourhoods(), k, |(u, n)| json!([self.l(u), n.len()]))),
                    "walk" => match self.o(ev) { Deg(g) => modes(|| g.iter(), k, |(u, n)| json!([self.l(u), n.len()])),
                        o => on_reach!(o, g => modes(|| g.iter(), k, |(u, r)| json!([self.l(u), r.len()]))) },
                    "dtfarcs" => match self.o(ev) { Dtf(g) => modes(|| g.arcs(), k, e2), _ => bad!("op") },
                    _ => bad!("op"),
                }
            }
            // set queries
            "nbhd" => { let us = self.vs(ev, "us"); on_nb!(self.o(ev), g => self.jv(g.neighbourhood(us.iter()).iter())) }
            "cnbhd" => { let us = self.vs(ev, "us"); on_nb!(self.o(ev), g => self.jv(g.closed_neighbourhood(us.iter()).iter())) }
            "rnbhd" => { let us = self.vs(ev, "us"); let r = n(ev, "r") as usize; on_nb!(self.o(ev), g => self.jv(g.r_neighbourhood(us.iter(), r).iter())) }
            "rnb" => { let u = self.v1(ev, "u"); let r = n(ev, "r") as usize; on_nb!(self.o(ev), g => self.jv(g.r_neighbours(&u, r).iter())) }
            "innbhd" => { let us = self.vs(ev, "us"); match self.o(ev) { Dg(g) => self.jv(g.in_neighbourhood(us.iter()).iter()), Dtf(g) => self.jv(g.in_neighbourhood(us.iter()).iter()), _ => bad!("op") } }
            "outnbhd" => { let us = self.vs(ev, "us"); match self.o(ev) { Dg(g) => self.jv(g.out_neighbourhood(us.iter()).iter()), _ => bad!("op") } }
            "subgraph" => {
                let us = self.vs(ev, "us");
                let r: EditGraph = on_nb!(self.o(ev), g => g.subgraph(us.iter()));
                let res = self.graph(&r);
                self.put(&to, Ug(r));
                res
            }
            "from_edges" => {
                let es: Vec<Edge> = on_nb!(self.o(ev), g => g.edges().collect());
                let r: EditGraph = es.into_iter().collect();
                let res = self.graph(&r);
                self.put(&to, Ug(r));
                res
            }
            // operations
            "invert" => { let r = on_nb!(self.o(ev), g => g.invert()); let x = self.graph(&r); self.put(&to, Ug(r)); x }
            "merge" => { let r = on_pair!(self.o(ev), self.get(s(ev, "g")), a, b => a.merge(b)); let x = self.graph(&r); self.put(&to, Ug(r)); x }
            "intersect" => { let r = on_pair!(self.o(ev), self.get(s(ev, "g")), a, b => a.intersect(b)); let x = self.graph(&r); self.put(&to, Ug(r)); x }
            "subdivide" => { let t = n(ev, "t") as u32; let r = on_nb!(self.o(ev), g => g.subdivide(t)); let x = self.graph(&r); self.put(&to, Ug(r)); x }
            "cart" | "lexi" => {
                let (r, map) = on_pair!(self.o(ev), self.get(s(ev, "g")), a, b => if op == "cart" { a.cartesian_product(b) } else { a.lexicographic_product(b) });
                let x = json!({"g": raw_graph(&r), "map": map.iter().map(|(i, (u, v))| json!([i, self.l(*u), self.l(*v)])).collect::<Vec<_>>()});
                if self.labels.is_none() { self.put(&to, Ug(r)); }
                x
            }
            "compare" => {
                let r = on_pair!(self.o(ev), self.get(s(ev, "g")), a, b => a.compare_subgraph(b));
                json!(match r { SubgraphRel::Sub => "sub", SubgraphRel::Eq => "eq", SubgraphRel::Sup => "super", SubgraphRel::Incomp => "incomparable" })
            }
            // algorithms
            "components" => on_nb!(self.o(ev), g => self.jsets(g.components().iter())),
            "bipartite" => match on_nb!(self.o(ev), g => g.is_bipartite()) {
                BipartiteWitness::Bipartition(a, b) => json!({"bip": true, "a": self.jv(a.iter()), "b": self.jv(b.iter())}),
                BipartiteWitness::OddCycle(c) => json!({"bip": false, "a": self.jv(c.iter())}),
            },
            "degeneracy" => {
                let (lo, up, ord, core) = on_nb!(self.o(ev), g => g.degeneracy());
                json!({"lo": lo, "up": up, "ord": self.jv(ord.iter()), "core": self.jm(core.iter())})
            }
            // ordered graphs
            "ord_with" => { let us = self.vs(ev, "us"); let r = on_nb!(self.o(ev), g => OrdGraph::with_ordering(g, us.iter())); self.put(&to, Ord(r)); json!(true) }
            "ord_deg" => { let r = on_nb!(self.o(ev), g => OrdGraph::by_degeneracy(g)); let x = self.jv(r.vertices()); self.put(&to, Ord(r)); x }
            "deg_with" => { let us = self.vs(ev, "us"); let r = on_nb!(self.o(ev), g => DegenGraph::with_ordering(g, us.iter())); self.put(&to, Deg(r)); json!(true) }
            "deg_from" => { let r = on_nb!(self.o(ev), g => DegenGraph::from_graph(g)); let x = self.jv(r.vertices()); self.put(&to, Deg(r)); x }
            "to_deg" => { let r = self.ord(&h).to_degeneracy_graph(); self.put(&to, Deg(r)); json!(true) }
            // the builders, called directly; sets: per vertex of us the pairs [earlier vertex, distance]
            "reach_build" => {
                let us = self.vs(ev, "us");
                let order: VertexMap<usize> = us.iter().enumerate().map(|(i, u)| (*u, i)).collect();
                let sets: Vec<VertexMap<u32>> = arr(&ev["sets"]).iter().map(|s| arr(s).iter().map(|p| (self.r(&p[0]), p[1].as_u64().unwrap() as u32)).collect()).collect();
                fn go<const D: usize>(us: &[u32], sets: &[VertexMap<u32>], order: &VertexMap<usize>, fresh: bool) -> ReachGraph<D> {
                    let mut b = if fresh { ReachGraphBuilder::<D>::new() } else { ReachGraphBuilder::<D>::default() };
                    for (u, s) in us.iter().zip(sets) { b.append(u, s, order) }
                    b.build()
                }
                let f = us.len() % 2 == 0;
                let o = match n(ev, "r") {
                    1 => R1(go(&us, &sets, &order, f)), 2 => R2(go(&us, &sets, &order, f)), 3 => R3(go(&us, &sets, &order, f)), 4 => R4(go(&us, &sets, &order, f)),
                    5 => R5(go(&us, &sets, &order, f)), 6 => R6(go(&us, &sets, &order, f)), 7 => R7(go(&us, &sets, &order, f)), 8 => R8(go(&us, &sets, &order, f)),
                    11 => R11(go(&us, &sets, &order, f)), _ => bad!("depth"),
                };
                self.put(&to, o);
                json!(true)
            }
            "deg_build" => {
                let us = self.vs(ev, "us");
                let mut b = if us.len() % 2 == 0 { DegenGraphBuilder::new() } else { DegenGraphBuilder::default() };
                for (u, s) in us.iter().zip(arr(&ev["sets"])) {
                    let left: Vec<u32> = arr(s).iter().map(|x| self.r(x)).collect();
                    b.append(u, &left);
                }
                self.put(&to, Deg(b.build()));
                json!(true)
            }
            "to_reach" => {
                let weak = ev["weak"].as_bool().unwrap();
                let g = self.ord(&h);
                let o = match (n(ev, "r"), weak) {
                    (1, true) => R1(g.to_wreach_graph::<1>()), (2, true) => R2(g.to_wreach_graph::<2>()),
                    (3, true) => R3(g.to_wreach_graph::<3>()), (4, true) => R4(g.to_wreach_graph::<4>()),
                    (5, true) => R5(g.to_wreach_graph::<5>()), (6, true) => R6(g.to_wreach_graph::<6>()), (7, true) => R7(g.to_wreach_graph::<7>()), (8, true) => R8(g.to_wreach_graph::<8>()), (11, true) => R11(g.to_wreach_graph::<11>()),
                    (1, false) => R1(g.to_sreach_graph::<1>()), (2, false) => R2(g.to_sreach_graph::<2>()),
                    (3, false) => R3(g.to_sreach_graph::<3>()), (4, false) => R4(g.to_sreach_graph::<4>()),
                    (5, false) => R5(g.to_sreach_graph::<5>()), (6, false) => R6(g.to_sreach_graph::<6>()), (7, false) => R7(g.to_sreach_graph::<7>()), (8, false) => R8(g.to_sreach_graph::<8>()), (11, false) => R11(g.to_sreach_graph::<11>()),
                    _ => bad!("depth"),
                };
                self.put(&to, o);
                json!(true)
            }
            "swap" => { let (u, v) = (self.v1(ev, "u"), self.v1(ev, "v")); match self.st.get_mut(&h) { Some(Ord(g)) => g.swap(&u, &v), _ => bad!("op") }; json!(true) }
            "leftmost" => { let us = self.vs(ev, "us"); json!(on_lin!(self.o(ev), g => g.leftmost(us.iter())).into_iter().map(|x| self.l(x)).collect::<Vec<_>>()) }
            "rightmost" => { let us = self.vs(ev, "us"); json!(on_lin!(self.o(ev), g => g.rightmost(us.iter())).into_iter().map(|x| self.l(x)).collect::<Vec<_>>()) }
            "right_bfs" => { let u = self.v1(ev, "u"); let r = n(ev, "r") as u32; let x = on_linnb!(self.o(ev), g => g.right_bfs(&u, r)); self.jsets(x.iter()) }
            "sreach_set" => { let u = self.v1(ev, "u"); let r = n(ev, "r") as u32; let x = on_linnb!(self.o(ev), g => g.sreach_set(&u, r)); self.jm(x.iter()) }
            "sreach_sets" => { let r = n(ev, "r") as u32; let x = on_linnb!(self.o(ev), g => g.sreach_sets(r)); self.jmm(x.iter()) }
            "sreach_sizes" => { let r = n(ev, "r") as u32; let x = on_linnb!(self.o(ev), g => g.sreach_sizes(r)); self.jm(x.iter()) }
            "wreach_sets" => { let r = n(ev, "r") as u32; let x = on_linnb!(self.o(ev), g => g.wreach_sets(r)); self.jmm(x.iter()) }
            "wreach_sizes" => { let r = n(ev, "r") as u32; let x = on_linnb!(self.o(ev), g => g.wreach_sizes(r)); self.jm(x.iter()) }
            "cliques" => json!(on_lin!(self.o(ev), g => g.count_max_cliques())),
            "colour" => { let c = on_lin!(self.o(ev), g => g.colour_greedy()); self.jm(c.iter()) }
            "domset" => {
                let r = n(ev, "r") as u32;
                let w = ev["wit"].as_bool().unwrap();
                let (d, dist, col) = match ev.get("us") {
                    Some(_) => { let us = self.vs(ev, "us"); on_linnb!(self.o(ev), g => g.domset_with_target(r, w, us.iter())) }
                    None => on_linnb!(self.o(ev), g => g.domset(r, w)),
                };
                let c = match &col { None => json!([]), Some(c) => self.jm(c.iter()) };
                json!({"set": self.jv(d.iter()), "dist": self.jm(dist.iter()), "haswit": col.is_some(), "col": c})
            }
            "scattered" => { let us = self.vs(ev, "us"); let d = n(ev, "d") as u32; let x = on_linnb!(self.o(ev), g => g.scattered_colouring(d, us.iter())); self.jsets(x.iter()) }
            // augmentations
            "orient" => { let r = on_nb!(self.o(ev), g => DTFGraph::orient(g)); let x = self.je(r.arcs_at(1)); self.put(&to, Dtf(r)); x }
            "orient_deep" => { let d = n(ev, "d") as usize; let r = on_nb!(self.o(ev), g => DTFGraph::orient_deep(g, d)); let x = self.je(r.arcs_at(1)); self.put(&to, Dtf(r)); x }
            "augment" => {
                let (d, f) = (n(ev, "d") as usize, n(ev, "f") as usize);
                match self.st.get_mut(&h) { Some(Dtf(g)) => g.augment(d, f), _ => bad!("op") };
                self.dtf_arcs(&h)
            }
            "dtf_arc" => { let (u, v, w) = (self.v1(ev, "u"), self.v1(ev, "v"), n(ev, "w") as usize); match self.st.get_mut(&h) { Some(Dtf(g)) => g.add_arc(&u, &v, w), _ => bad!("op") }; json!(true) }
            "small_dist" => {
                let g = self.dtf(&h);
                let us = self.vs(ev, "us");
                let mut r = vec![];
                for u in &us { for v in &us { r.push(json!([self.l(*u), self.l(*v), g.small_distance(u, v).map(|x| x as i64).unwrap_or(-1)])); } }
                json!(r)
            }
            "layer" => {
                let d = n(ev, "d") as usize;
                let us = self.vs(ev, "us");
                let mut o = self.st.remove(&h).unwrap_or_else(|| bad!("no handle"));
                let res = match &mut o { Dtf(g) => { let ly = g.layer(d); self.obs_layer(&ly, &us) } _ => bad!("op") };
                self.put(&h, o);
                res
            }
            "layer_new" => { let d = n(ev, "d") as usize; let us = self.vs(ev, "us"); self.obs_layer(&DTFLayer::new(self.dtf(&h), d), &us) }
            "edge_subgraph" => { let es = self.es(ev, "es"); let r = self.dtf(&h).edge_subgraph(es.into_iter()); self.put(&to, Dtf(r)); self.dtf_arcs(&to) }
            "dtf_und" => { let r: EditGraph = self.dtf(&h).to_undirected(); let x = self.graph(&r); self.put(&to, Ug(r)); x }
            "dtf_domset" => {
                let r = n(ev, "r") as u32;
                let d = match self.st.get_mut(&h) { Some(Dtf(g)) => g.domset(r), _ => bad!("op") };
                json!({"set": self.jv(d.iter()), "st": self.dtf_arcs(&h)})
            }
            // trace oracle
            "oracle" => { let r = SReachTraceOracle::for_graph(self.deg(&h)); self.put(&to, Orc(r)); json!(true) }
            "traces" => { let us = self.vs(ev, "us"); let t = self.orc(&h).compute_traces(&us, self.deg(s(ev, "g"))); json!(t.iter().map(|(k, c)| json!([self.jv(k.iter()), c])).collect::<Vec<_>>()) }
            "ncount" => { let us = self.vs(ev, "us"); json!(self.orc(&h).compute_neighbour_count(&us, self.deg(s(ev, "g")))) }
            "shattered" => { let us = self.vs(ev, "us"); json!(self.orc(&h).is_shattered(us.iter(), n(ev, "kk") as u32, self.deg(s(ev, "g")))) }
            // colourings, maps, mixed elements
            "col_new" => { let c: VertexColouring<u32> = VertexColouring::from_iter(self.pairs(ev, "ps")); self.put(&h, Col(c)); json!(true) }
            "col_default" => { self.put(&h, Col(VertexColouring::default())); json!(true) }
            "col_map" => { let m: VertexMap<u32> = self.pairs(ev, "ps").into_iter().collect(); self.put(&h, Col(VertexColouring::from(m))); json!(true) }
            "col_sets" => { let sets: Vec<VertexSet> = arr(&ev["sets"]).iter().map(|x| arr(x).iter().map(|y| self.r(y)).collect()).collect(); self.put(&h, Col(VertexColouring::from_sets(sets))); json!(true) }
            "col_insert" => { let (u, c) = (self.v1(ev, "u"), n(ev, "c") as u32); match self.st.get_mut(&h) { Some(Col(x)) => json!(x.insert(u, c).into_iter().collect::<Vec<_>>()), _ => bad!("op") } }
            "col_extend" => {
                let o = self.st.remove(s(ev, "g")).unwrap_or_else(|| bad!("handle"));
                if let Col(b) = &o { match self.st.get_mut(&h) { Some(Col(a)) => a.disjoint_extend(b), _ => bad!("op") } }
                self.put(s(ev, "g"), o);
                self.jm(self.col(&h).iter())
            }
            "col_subset" => { let us = self.vs(ev, "us"); let r = self.col(&h).subset(us.iter()); let x = self.jm(r.iter()); self.put(&to, Col(r)); x }
            "col_eq" => json!(self.col(&h) == self.col(s(ev, "g"))),
            "col_obs" => {
                let us = self.vs(ev, "us");
                let c = self.col(&h);
                let mut m = Map::new();
                m.insert("len".into(), json!(c.len()));
                m.insert("iter".into(), self.jm(c.iter()));
                m.insert("vs".into(), self.jv(c.vertices()));
                m.insert("cols".into(), json!(c.colours().cloned().collect::<Vec<u32>>()));
                m.insert("con".into(), self.jv(us.iter().filter(|u| c.contains(u))));
                m.insert("get".into(), Value::Array(us.iter().map(|u| json!([self.l(*u), c.get(u).into_iter().collect::<Vec<_>>()])).collect()));
                m.insert("ix".into(), Value::Array(us.iter().filter(|u| c.contains(u)).map(|u| json!([self.l(*u), c[u]])).collect()));
                m.insert("inv".into(), Value::Array(c.invert().iter().map(|(k, s)| json!([k, self.jv(s.iter())])).collect()));
                m.insert("maj".into(), match c.majority_set() { None => json!([]), Some((s, k)) => json!([k, self.jv(s.iter())]) });
                let map: VertexMap<u32> = c.iter().map(|(a, b)| (*a, *b)).collect();
                m.insert("minv".into(), Value::Array(map.invert().iter().map(|(k, s)| json!([k, self.jv(s.iter())])).collect()));
                m.insert("mmaj".into(), match map.majority_set() { None => json!([]), Some((s, k)) => json!([k, self.jv(s.iter())]) });
                let again: VertexColouring<u32> = VertexColouring::from_iter(c.iter().map(|(a, b)| (*a, *b)));
                m.insert("asmap".into(), self.jm(again.as_map().iter()));
                Value::Object(m)
            }
            "mixed" => {
                let a = self.voe(&ev["a"]);
                let b = self.voe(&ev["b"]);
                json!({"inter": match a.intersection(b) { None => json!([]), Some(x) => self.jvoe(x) }, "ints": a.intersects(b), "eq": a == b,
                       "isv": a.is_vertex(), "ise": a.is_edge(),
                       "asv": a.as_vertex().into_iter().map(|x| self.l(x)).collect::<Vec<_>>(),
                       "ase": a.as_edge().into_iter().map(|(x, y)| json!([self.l(x), self.l(y)])).collect::<Vec<_>>()})
            }
            // files
            "io_write" => {
                let p = self.path(s(ev, "file"));
                let gz = ev["gz"].as_bool().unwrap();
                let r = match self.o(ev) {
                    Set(x) => if gz { x.write_gzipped(&p) } else { x.write_txt(&p) },
                    Seq(x) => if gz { x.write_gzipped(&p) } else { x.write_txt(&p) },
                    o => on_nb!(o, g => if gz { g.write_gzipped(&p) } else { g.write_txt(&p) }),
                };
                json!(r.is_ok())
            }
            // a write to a medium that takes `cap` bytes (a share of what a complete write needs)
            "io_write_fault" => {
                let p = self.path(s(ev, "file"));
                let via = s(ev, "via");
                fn go<T: WriteToFile>(x: &T, p: &str, via: &str, ev: &Value, cap: Option<u64>) -> (bool, u64) {
                    if via == "txt" || via == "gz" {
                        let r = file_limit(cap, || if via == "gz" { x.write_gzipped(p) } else { x.write_txt(p) });
                        (r.is_ok(), std::fs::metadata(p).map(|m| m.len()).unwrap_or(0))
                    } else {
                        let out = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
                        let sink = crate::fault::Sink::new(out.clone(), cap, n(ev, "chunk") as usize, n(ev, "intr") as usize, cap.is_some() && s(ev, "fail") == "flush", s(ev, "fail") == "zero");
                        let b = n(ev, "buf") as usize;
                        let r = if b > 0 { x.write_buf(Box::new(std::io::BufWriter::with_capacity(b, sink))) } else { x.write_buf(Box::new(sink)) };
                        std::fs::write(p, &*out.borrow()).unwrap();
                        let len = out.borrow().len() as u64;
                        (r.is_ok(), len)
                    }
                }
                let o = self.o(ev);
                let run = |cap: Option<u64>| match o {
                    Set(x) => go(x, &p, via, ev, cap),
                    Seq(x) => go(x, &p, via, ev, cap),
                    o => on_nb!(o, g => go(g, &p, via, ev, cap)),
                };
                let (whole, full) = run(None);
                let cap = match s(ev, "at") { "off" => n(ev, "k").min(full), "end" => full.saturating_sub(n(ev, "k")), "ratio" => full * n(ev, "k") / 1000, _ => full + n(ev, "k") };
                std::fs::remove_file(&p).unwrap();
                let (ok, size) = run(Some(cap));
                json!({"whole": whole, "full": full, "cap": cap, "ok": ok, "size": size})
            }
            // a path that cannot be written or read
            "io_nowhere" => {
                let d = self.path("dir.d");
                std::fs::create_dir_all(&d).unwrap();
                let p = if s(ev, "what") == "dir" { d } else { self.path("missing") + "/f.txt" };
                let w = |a: std::io::Result<()>| a.is_ok();
                let (wt, wg) = match self.o(ev) {
                    Set(x) => (w(x.write_txt(&p)), w(x.write_gzipped(&p))),
                    Seq(x) => (w(x.write_txt(&p)), w(x.write_gzipped(&p))),
                    o => on_nb!(o, g => (w(g.write_txt(&p)), w(g.write_gzipped(&p)))),
                };
                fn rd<T: LoadFromFile>(p: &str) -> Vec<bool> { ["txt", "gz", "file"].iter().map(|v| load::<T>(p, v).is_ok()).collect() }
                json!({"w": [wt, wg], "ug": rd::<EditGraph>(&p), "set": rd::<VertexSet>(&p), "seq": rd::<Vec<Vertex>>(&p)})
            }
            "vset" => { let x: VertexSet = self.vs(ev, "us").into_iter().collect(); self.put(&h, Set(x)); json!(true) }
            "vseq" => { let x = self.vs(ev, "us"); self.put(&h, Seq(x)); json!(true) }
            "io_read" => {
                let p = self.path(s(ev, "file"));
                let via = s(ev, "via");
                match s(ev, "k") {
                    "ug" => match load::<EditGraph>(&p, via) { Ok(g) => { let x = self.graph(&g); self.put(&to, Ug(g)); json!({"ok": true, "g": x}) } Err(_) => json!({"ok": false}) },
                    "set" => match load::<VertexSet>(&p, via) { Ok(g) => { let x = self.jv(g.iter()); self.put(&to, Set(g)); json!({"ok": true, "vs": x}) } Err(_) => json!({"ok": false}) },
                    "seq" => match load::<Vec<Vertex>>(&p, via) { Ok(g) => { let x = self.jv(g.iter()); self.put(&to, Seq(g)); json!({"ok": true, "vs": x}) } Err(_) => json!({"ok": false}) },
                    _ => bad!("op"),
                }
            }
            // raw bytes -> reader.  wrap: "plain" | "gz" (compressed) | "raw" (bytes are the file already)
            "io_parse" => {
                use std::io::Write;
                let bytes: Vec<u8> = arr(&ev["bytes"]).iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let mut data = match s(ev, "wrap") {
                    // several members: the contents one after the other
                    "gzs" => {
                        let mut all = vec![];
                        let k = n(ev, "parts") as usize;
                        for i in 0..k {
                            let part = &bytes[bytes.len() * i / k..bytes.len() * (i + 1) / k];
                            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new((i * 4 % 10) as u32));
                            e.write_all(part).unwrap();
                            all.extend(e.finish().unwrap());
                        }
                        all
                    }
                    "gz" => {
                        let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
                        e.write_all(&bytes).unwrap();
                        e.finish().unwrap()
                    }
                    _ => bytes,
                };
                match s(ev, "dmg") {
                    "none" => (),
                    "trunc" => { let k = n(ev, "at") as usize % data.len().max(1); data.truncate(k); }
                    // something else follows the compressed data
                    "tail" => data.extend(std::iter::repeat(b'x').take(1 + n(ev, "at") as usize)),
                    "flip" => {
                        // damage the compressed stream or its trailer, or the magic number
                        let k = n(ev, "at") as usize;
                        let body = data.len() - 10;
                        let ix = if k % 16 == 15 { k / 16 % 2 } else { 10 + (k / 16) % body };
                        data[ix] ^= 1 << (k % 8);
                    }
                    _ => bad!("dmg"),
                }
                let via = s(ev, "via");
                let fault = ev.get("fault").cloned();
                let name = s(ev, "file");
                let p = self.path(name);
                if ev["miss"].as_bool().unwrap() { let _ = std::fs::remove_file(&p); } else if via != "buf" { std::fs::write(&p, &data).unwrap(); }
                let go_fault = fault.as_ref();
                fn go<T: LoadFromFile>(p: &str, via: &str, data: &[u8], fault: Option<&Value>) -> std::io::Result<T> {
                    if let Some(f) = fault {
                        let src = crate::fault::Source::new(data.to_vec(), f["at"].as_u64().map(|x| x as usize), n(f, "chunk") as usize, n(f, "intr") as usize);
                        return T::from_buf(Box::new(std::io::BufReader::with_capacity(n(f, "buf") as usize, src)));
                    }
                    if via == "buf" { T::from_buf(Box::new(std::io::BufReader::with_capacity(7, std::io::Cursor::new(data.to_vec())))) } else { load::<T>(p, via) }
                }
                let res = match s(ev, "k") {
                    "ug" => match go::<EditGraph>(&p, via, &data, go_fault) {
                        Ok(g) => json!({"ok": true, "n": g.num_vertices(), "m": g.num_edges(), "vs": g.vertices().map(|x| digits(*x as u64)).collect::<Vec<_>>(),
                            "es": g.edges().map(|(a, b)| json!([digits(a as u64), digits(b as u64)])).collect::<Vec<_>>()}),
                        Err(_) => json!({"ok": false}),
                    },
                    "set" => match go::<VertexSet>(&p, via, &data, go_fault) { Ok(g) => json!({"ok": true, "vs": g.iter().map(|x| digits(*x as u64)).collect::<Vec<_>>()}), Err(_) => json!({"ok": false}) },
                    "seq" => match go::<Vec<Vertex>>(&p, via, &data, go_fault) { Ok(g) => json!({"ok": true, "vs": g.iter().map(|x| digits(*x as u64)).collect::<Vec<_>>()}), Err(_) => json!({"ok": false}) },
                    _ => bad!("op"),
                };
                let _ = std::fs::remove_file(&p);
                res
            }
            x => bad!("unknown op {x}"),
        }
    }

    fn dtf_arcs(&self, h: &str) -> Value {
        let g = self.dtf(h);
        let mut r = vec![];
        for d in 1..=g.get_depth() {
            for v in g.vertices() { for u in g.in_neighbours_at(v, d) { r.push(json!([self.l(*u), self.l(*v), d])); } }
        }
        json!({"depth": g.get_depth(), "vs": self.jv(g.vertices()), "arcs": r})
    }
    fn orc(&self, h: &str) -> &SReachTraceOracle {
        match self.get(h) { Orc(g) => g, _ => bad!("not orc") }
    }
    fn col(&self, h: &str) -> &VertexColouring<u32> {
        match self.get(h) { Col(g) => g, _ => bad!("not col") }
    }
    fn pairs(&self, ev: &Value, k: &str) -> Vec<(u32, u32)> {
        arr(&ev[k]).iter().map(|e| (self.r(&e[0]), e[1].as_u64().unwrap() as u32)).collect()
    }
    fn voe(&self, v: &Value) -> VertexOrEdge {
        let a = arr(v);
        if a.len() == 1 { VertexOrEdge::V(self.r(&a[0])) } else { VertexOrEdge::E((self.r(&a[0]), self.r(&a[1]))) }
    }
    fn jvoe(&self, x: VertexOrEdge) -> Value {
        match x { VertexOrEdge::V(v) => json!([self.l(v)]), VertexOrEdge::E((a, b)) => json!([self.l(a), self.l(b)]) }
    }
    fn path(&self, name: &str) -> String {
        if name.contains('/') || name.contains("..") { bad!("path {name}") }
        format!("{}/{}", self.dir, name)
    }
}

/// Runs f while no file of this process can grow beyond cap bytes.
fn file_limit<T>(cap: Option<u64>, f: impl FnOnce() -> T) -> T {
    let Some(cap) = cap else { return f() };
    crate::fault::limit_file_size(Some(cap));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    crate::fault::limit_file_size(None);
    match r { Ok(x) => x, Err(p) => std::panic::resume_unwind(p) }
}
/// Takes k elements and then the rest, polls after the end, counts, skips, takes two iterators in turn.
fn modes<T, I: Iterator<Item = T>>(mk: impl Fn() -> I, k: usize, enc: impl Fn(T) -> Value) -> Value {
    let mut it = mk();
    let hint = it.size_hint();
    let first: Vec<Value> = it.by_ref().take(k).map(&enc).collect();
    let hint2 = it.size_hint();
    let mut rest = vec![];
    while let Some(x) = it.next() { rest.push(enc(x)) }
    let over = (0..3).filter(|_| it.next().is_some()).count();
    let mut every = vec![];
    let mut it = mk();
    while let Some(x) = it.nth(1) { every.push(enc(x)) }
    let (mut a, mut b) = (mk(), mk());
    let (mut xs, mut ys) = (vec![], vec![]);
    loop {
        let (x, y) = (a.next(), b.next());
        let end = x.is_none() && y.is_none();
        xs.extend(x.map(&enc));
        ys.extend(y.map(&enc));
        if end { break }
    }
    // consumed to k, then finished in the other ways an iterator can be finished
    let part = || { let mut it = mk(); let xs: Vec<Value> = it.by_ref().take(k).map(&enc).collect(); (xs, it) };
    let (counted, it) = part();
    let rcount = it.count();
    let (lasted, it) = part();
    let rlast: Vec<Value> = it.last().into_iter().map(&enc).collect();
    let (folded, it) = part();
    let rfold = it.fold(vec![], |mut xs, x| { xs.push(enc(x)); xs });
    let mut it = mk();
    let nth: Vec<Value> = it.nth(k).into_iter().map(&enc).collect();
    let after: Vec<Value> = it.map(&enc).collect();
    let h = |(lo, hi): (usize, Option<usize>)| json!([lo, hi.map(|x| x as i64).unwrap_or(-1)]);
    json!({"first": first, "rest": rest, "over": over, "count": mk().count(), "last": mk().last().into_iter().map(&enc).collect::<Vec<_>>(),
           "counted": counted, "rcount": rcount, "lasted": lasted, "rlast": rlast, "folded": folded, "rfold": rfold, "nth": nth, "after": after,
           "every": every, "a": xs, "b": ys, "hint": h(hint), "hint2": h(hint2)})
}
fn load<T: LoadFromFile>(p: &str, via: &str) -> std::io::Result<T> {
    match via { "txt" => T::from_txt(p), "gz" => T::from_gzipped(p), "file" => T::from_file(p), _ => bad!("via") }
}
fn raw_graph<G: Graph>(g: &G) -> Value {
    json!({"n": g.num_vertices(), "m": g.num_edges(), "vs": g.vertices().cloned().collect::<Vec<u32>>(), "es": g.edges().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
}
fn raw_dgraph(g: &EditDigraph) -> Value {
    json!({"n": g.num_vertices(), "m": g.num_edges(), "vs": g.vertices().cloned().collect::<Vec<u32>>(), "as": g.arcs().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()})
}
