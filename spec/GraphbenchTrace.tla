-------------------------- MODULE GraphbenchTrace --------------------------
(***************************************************************************)
(* Trace validation: every recorded call of the real library must be a step *)
(* of Graphbench.  The file named by the environment variable TRACE holds   *)
(* one recorded case per line; every case is one behaviour.  A call whose   *)
(* recorded result the specification does not allow has no successor, which *)
(* TLC reports as a deadlock.                                               *)
(***************************************************************************)
EXTENDS Graphbench, Json, IOUtils

VARIABLES c,   \* the case
          l    \* the next call
tvars == <<c, l, store>>

Cases == ndJsonDeserialize(IOEnv.TRACE)
Ev == Cases[c].ev
e == Ev[l]

Opt(f, dflt) == IF f \in DOMAIN e THEN e[f] ELSE dflt

\* the next recorded call is op and it returned (did not panic)
IsEvent(op) ==
  /\ l <= Len(Ev)
  /\ e.op = op
  /\ "res" \in DOMAIN e
  /\ l' = l + 1
  /\ c' = c
\* the next recorded call is op and it panicked
IsPanic(op) ==
  /\ l <= Len(Ev)
  /\ e.op = op
  /\ "panic" \in DOMAIN e
  /\ l' = l + 1
  /\ c' = c

TNew == IsEvent("new") /\ New(e.h, e.k, e.res)
TFromIter == IsEvent("from_iter") /\ FromIter(e.h, e.k, e.es, e.res)
TMk == IsEvent("mk") /\ Mk(e.h, e.k, e.vs, e.es, e.res)
TAddVertex == IsEvent("add_vertex") /\ IF Kind(e.h) = "dtf" THEN DtfAddVertex(e.h, e.u, e.res) ELSE AddVertex(e.h, e.u, e.res)
TRemoveVertex == IsEvent("remove_vertex") /\ RemoveVertex(e.h, e.u, e.res)
TAddEdge == IsEvent("add_edge") /\ AddEdge(e.h, e.u, e.v, e.res)
TRemoveEdge == IsEvent("remove_edge") /\ RemoveEdge(e.h, e.u, e.v, e.res)
TAddVertices == IsEvent("add_vertices") /\ AddVertices(e.h, e.us, e.res)
TAddEdges == IsEvent("add_edges") /\ AddEdges(e.h, e.es, e.res)
TRemoveLoops == IsEvent("remove_loops") /\ RemoveLoops(e.h, e.res)
TRemoveIsolates == IsEvent("remove_isolates") /\ RemoveIsolates(e.h, e.res)
TClone == IsEvent("clone") /\ Clone(e.h, e.to, e.res)
TEqual == IsEvent("eq") /\ Equal(e.h, e.g, e.res)
TContract == IsEvent("contract") /\ Contract(e.h, e.us, e.res)
TContractPair == IsEvent("contract_pair") /\ ContractPair(e.h, e.u, e.v, e.res)
TContractInto == IsEvent("contract_into") /\ ContractInto(e.h, e.u, e.us, e.res)
TNormalize == IsEvent("normalize") /\ IF Kind(e.h) = "deg" THEN NormalizeDeg(e.h, e.res) ELSE Normalize(e.h, Opt("to", ""), e.res)
TDisjUnion == IsEvent("disj_union") /\ DisjUnionOf(e.h, e.g, e.to, e.res)
TDisjUnions == IsEvent("disj_unions") /\ DisjUnions(e.k, e.gs, e.to, e.res)
TGenerate == IsEvent("gen") /\ Generate(e.h, e.k, e.name, e.p, e.res)
TObserve == IsEvent("obs") /\ Observe(e.h, e.us, e.res)
TIterate == IsEvent("iterparts") /\ Iterate(e.h, e.res)
TIterModes == IsEvent("itermodes") /\ IterModes(e.h, e.it, e.k, e.res)
TNbhd == IsEvent("nbhd") /\ Nbhd(e.h, e.us, e.res)
TCNbhd == IsEvent("cnbhd") /\ CNbhd(e.h, e.us, e.res)
TRNbhd == IsEvent("rnbhd") /\ RNbhd(e.h, e.us, e.r, e.res)
TRNb == IsEvent("rnb") /\ RNb(e.h, e.u, e.r, e.res)
TInNbhd == IsEvent("innbhd") /\ IF Kind(e.h) = "dtf" THEN DtfInNbhd(e.h, e.us, e.res) ELSE InNbhd(e.h, e.us, e.res)
TOutNbhd == IsEvent("outnbhd") /\ OutNbhd(e.h, e.us, e.res)
TSubgraph == IsEvent("subgraph") /\ Subgraph(e.h, e.us, e.to, e.res)
TFromEdges == IsEvent("from_edges") /\ FromEdges(e.h, e.to, e.res)
TInvert == IsEvent("invert") /\ Invert(e.h, e.to, e.res)
TMerge == IsEvent("merge") /\ Merge(e.h, e.g, e.to, e.res)
TIntersect == IsEvent("intersect") /\ Intersect(e.h, e.g, e.to, e.res)
TSubdivide == IsEvent("subdivide") /\ Subdivide(e.h, e.t, e.to, e.res)
TCartesian == IsEvent("cart") /\ Cartesian(e.h, e.g, Opt("to", ""), e.res)
TLexicographic == IsEvent("lexi") /\ Lexicographic(e.h, e.g, Opt("to", ""), e.res)
TCompare == IsEvent("compare") /\ Compare(e.h, e.g, e.res)
TComponents == IsEvent("components") /\ ComponentsOf(e.h, e.res)
TBipartite == IsEvent("bipartite") /\ Bipartite(e.h, e.res)
TDegeneracy == IsEvent("degeneracy") /\ DegeneracyOf(e.h, e.res)
TOrdWith == IsEvent("ord_with") /\ OrdWith(e.h, e.us, e.to, e.res)
TOrdByDeg == IsEvent("ord_deg") /\ OrdByDeg(e.h, e.to, e.res)
TDegWith == IsEvent("deg_with") /\ DegWith(e.h, e.us, e.to, e.res)
TDegByDeg == IsEvent("deg_from") /\ DegByDeg(e.h, e.to, e.res)
TToDeg == IsEvent("to_deg") /\ ToDeg(e.h, e.to, e.res)
TToReach == IsEvent("to_reach") /\ ToReach(e.h, e.r, e.weak, e.to, e.res)
TReachBuild == IsEvent("reach_build") /\ ReachBuild(e.us, e.r, e.sets, e.to, e.res)
TDegBuild == IsEvent("deg_build") /\ DegBuild(e.us, e.sets, e.to, e.res)
TSwap == IsEvent("swap") /\ Swap(e.h, e.u, e.v, e.res)
TLeftmost == IsEvent("leftmost") /\ Leftmost(e.h, e.us, e.res)
TRightmost == IsEvent("rightmost") /\ Rightmost(e.h, e.us, e.res)
TRightBfs == IsEvent("right_bfs") /\ RightBfs(e.h, e.u, e.r, e.res)
TSReachSet == IsEvent("sreach_set") /\ SReachSet(e.h, e.u, e.r, e.res)
TSReachSets == IsEvent("sreach_sets") /\ SReachSets(e.h, e.r, e.res)
TSReachSizes == IsEvent("sreach_sizes") /\ SReachSizes(e.h, e.r, e.res)
TWReachSets == IsEvent("wreach_sets") /\ WReachSets(e.h, e.r, e.res)
TWReachSizes == IsEvent("wreach_sizes") /\ WReachSizes(e.h, e.r, e.res)
TCliques == IsEvent("cliques") /\ CountCliques(e.h, e.res)
TColour == IsEvent("colour") /\ GreedyColour(e.h, e.res)
TDomset == IsEvent("domset") /\ Domset(e.h, IF "us" \in DOMAIN e THEN Range(e.us) ELSE DOMAIN G(e.h), e.r, e.wit, e.res)
TScattered == IsEvent("scattered") /\ Scattered(e.h, e.us, e.d, e.res)
TOrient == IsEvent("orient") /\ Orient(e.h, e.to, e.res)
TOrientDeep == IsEvent("orient_deep") /\ Orient(e.h, e.to, e.res)
TAugment == IsEvent("augment") /\ Augment(e.h, e.d, e.res)
TDtfArc == IsEvent("dtf_arc") /\ DtfAddArc(e.h, e.u, e.v, e.w, e.res)
TSmallDist == IsEvent("small_dist") /\ SmallDistances(e.h, e.us, e.res)
TLayer == IsEvent("layer") /\ Layer(e.h, e.d, e.us, e.res)
TLayerNew == IsEvent("layer_new") /\ LayerNew(e.h, e.d, e.us, e.res)
TEdgeSubgraph == IsEvent("edge_subgraph") /\ EdgeSubgraph(e.h, e.es, e.to, e.res)
TDtfUndirected == IsEvent("dtf_und") /\ DtfUndirected(e.h, e.to, e.res)
TDtfDomset == IsEvent("dtf_domset") /\ DtfDomset(e.h, e.r, e.res)
TOracle == IsEvent("oracle") /\ Oracle(e.h, e.to, e.res)
TTraces == IsEvent("traces") /\ Traces(e.h, e.us, e.res)
TNeighbourCount == IsEvent("ncount") /\ NeighbourCount(e.h, e.us, e.res)
TShattered == IsEvent("shattered") /\ Shattered(e.h, e.us, e.kk, e.res)
TColNew == IsEvent("col_new") /\ ColNew(e.h, e.ps, e.res)
TColMap == IsEvent("col_map") /\ ColNew(e.h, e.ps, e.res)
TColDefault == IsEvent("col_default") /\ ColDefault(e.h, e.res)
TColSets == IsEvent("col_sets") /\ ColSets(e.h, e.sets, e.res)
TColInsert == IsEvent("col_insert") /\ ColInsert(e.h, e.u, e.c, e.res)
TColExtend == IsEvent("col_extend") /\ ColExtend(e.h, e.g, e.res)
TColSubset == IsEvent("col_subset") /\ ColSubset(e.h, e.us, e.to, e.res)
TColEq == IsEvent("col_eq") /\ ColEq(e.h, e.g, e.res)
TColObs == IsEvent("col_obs") /\ ColObs(e.h, e.us, e.res)
TMixed == IsEvent("mixed") /\ Mixed(e.a, e.b, e.res)
TVset == IsEvent("vset") /\ PutSet(e.h, e.us, e.res)
TVseq == IsEvent("vseq") /\ PutSeq(e.h, e.us, e.res)
TIoWrite == IsEvent("io_write") /\ IoWrite(e.h, e.file, e.gz, e.res)
TIoWriteFault == IsEvent("io_write_fault") /\ IoWriteFault(e.h, e.file, e.via, e.plain, e.res)
TIoNowhere == IsEvent("io_nowhere") /\ IoNowhere(e.h, e.res)
TIoRead == IsEvent("io_read") /\ (IoRead(e.file, e.via, e.k, e.to, e.res) \/ IoReadBack(e.file, e.via, e.k, e.to, e.res))
TIoParse == IsEvent("io_parse") /\ IoParse(e)

TraceInit ==
  /\ c \in 1..Len(Cases)
  /\ l = 1
  /\ store = EmptyGraph

Edits ==
  \/ TNew \/ TFromIter \/ TMk \/ TAddVertex \/ TRemoveVertex \/ TAddEdge \/ TRemoveEdge \/ TAddVertices \/ TAddEdges
  \/ TRemoveLoops \/ TRemoveIsolates \/ TClone \/ TEqual \/ TContract \/ TContractPair \/ TContractInto \/ TNormalize
  \/ TDisjUnion \/ TDisjUnions \/ TGenerate
Queries ==
  \/ TObserve \/ TIterate \/ TIterModes \/ TNbhd \/ TCNbhd \/ TRNbhd \/ TRNb \/ TInNbhd \/ TOutNbhd \/ TSubgraph \/ TFromEdges
  \/ TInvert \/ TMerge \/ TIntersect \/ TSubdivide \/ TCartesian \/ TLexicographic \/ TCompare
  \/ TComponents \/ TBipartite \/ TDegeneracy
Ordered ==
  \/ TOrdWith \/ TOrdByDeg \/ TDegWith \/ TDegByDeg \/ TToDeg \/ TToReach \/ TReachBuild \/ TDegBuild \/ TSwap \/ TLeftmost \/ TRightmost
  \/ TRightBfs \/ TSReachSet \/ TSReachSets \/ TSReachSizes \/ TWReachSets \/ TWReachSizes
  \/ TCliques \/ TColour \/ TDomset \/ TScattered
Augmented ==
  \/ TOrient \/ TOrientDeep \/ TAugment \/ TDtfArc \/ TSmallDist \/ TLayer \/ TLayerNew \/ TEdgeSubgraph
  \/ TDtfUndirected \/ TDtfDomset
Others ==
  \/ TOracle \/ TTraces \/ TNeighbourCount \/ TShattered
  \/ TColNew \/ TColMap \/ TColDefault \/ TColSets \/ TColInsert \/ TColExtend \/ TColSubset \/ TColEq \/ TColObs \/ TMixed
  \/ TVset \/ TVseq \/ TIoWrite \/ TIoWriteFault \/ TIoNowhere \/ TIoRead \/ TIoParse
Finished == l > Len(Ev) /\ UNCHANGED tvars

TraceNext == Edits \/ Queries \/ Ordered \/ Augmented \/ Others \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<c, l>>

\* every abstract graph ever reached is well formed
StoreOK == \A h \in DOMAIN store : CASE store[h].k \in {"ug", "ord", "deg", "reach"} -> IsGraph(store[h].g)
                                     [] store[h].k = "dg" -> \A v \in DOMAIN store[h].g : store[h].g[v] \subseteq DOMAIN store[h].g
                                     [] OTHER -> TRUE
=============================================================================
