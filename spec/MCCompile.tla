------------------------------ MODULE MCCompile ------------------------------
(***************************************************************************)
(* Any elimination order and any tie-breaking of equal masses, from every  *)
(* undirected graph over 1..N, ends in a valid junction forest.  Families  *)
(* of the network are complete sets of its moral graph: all of those must  *)
(* fit.  GREEDY=0 spans with separators in any order: not every spanning   *)
(* forest has the running intersection property (checked as a witness).    *)
(***************************************************************************)
EXTENDS Compile, IOUtils
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
N == IF Env("NODES") = "5" THEN 5 ELSE IF Env("NODES") = "3" THEN 3 ELSE 4
V == 1..N
Complete(G) == {S \in SUBSET V : S # {} /\ CompleteIn(G, S)}
MCInit == \E G \in SUBSET Pairs(V) : CompileInit(V, G)
(* separators are symmetric: take one orientation *)
Less(c, d) == \E k \in V : /\ \A j \in 1..(k-1) : j \in c <=> j \in d
                           /\ k \in c /\ k \notin d
MCNext == (\E v \in left : Eliminate(v))
          \/ (phase = "span" /\ \E s \in Candidates : Less(s.a, s.b) /\ Span(s)) \/ Finish
MCSpec == MCInit /\ [][MCNext]_cvars
ValidWhenDone == phase = "done" => Valid(forest, graph, verts, Complete(graph))
(* clusters are never nested, and what is left of the graph stays below them *)
NeverNested == NoNesting(forest)
=============================================================================
