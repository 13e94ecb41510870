------------------------------- MODULE Compile -------------------------------
(***************************************************************************)
(* What a compiled tree must look like, and the compilation algorithm as a *)
(* nondeterministic machine: eliminate the nodes of the moral graph in any *)
(* order, keep the clusters not inside an earlier one, then span them with *)
(* separators of largest mass first, ties broken in any way.               *)
(*                                                                         *)
(* A forest is [cl: set of clusters (sets of positions),                   *)
(*              sp: set of [vs, a, b]] (separator vs between clusters a, b)*)
(***************************************************************************)
EXTENDS BBN

Pairs(S) == {p \in SUBSET S : Cardinality(p) = 2}

Moral(net) ==
    UNION {Pairs(Family(net, i)) : i \in Nodes(net)}

Adj(G, v) == {u \in UNION G : u # v /\ {u, v} \in G}
CompleteIn(G, S) == \A p \in Pairs(S) : p \in G

(* Undirected reachability over a set of pairs. *)
RECURSIVE UReach(_, _, _)
UReach(G, seen, frontier) ==
    IF frontier = {} THEN seen
    ELSE LET nxt == UNION {Adj(G, v) : v \in frontier} \ seen
         IN  UReach(G, seen \cup nxt, nxt)
UComp(G, v) == UReach(G, {v}, {v})

(* Perfect elimination: the cliques met on the way, or {} if G is not chordal *)
RECURSIVE ElimCliques(_, _, _)
ElimCliques(G, V, acc) ==
    IF V = {} THEN [ok |-> TRUE, cl |-> acc]
    ELSE LET S == {v \in V : CompleteIn(G, {u \in V : {u, v} \in G})} IN
         IF S = {} THEN [ok |-> FALSE, cl |-> {}]
         ELSE LET v == CHOOSE x \in S : TRUE IN
              ElimCliques(G, V \ {v}, acc \cup {{v} \cup {u \in V : u # v /\ {u, v} \in G}})
Maximal(C) == {c \in C : ~\E d \in C : c # d /\ c \subseteq d}
Chordal(G, V) == ElimCliques(G, V, {}).ok
MaxCliques(G, V) == Maximal(ElimCliques(G, V, {}).cl)     \* of a chordal graph

Fill(C) == UNION {Pairs(c) : c \in C}

(***************************************************************************)
(* Requirements on a forest compiled for a graph M over V (families = the  *)
(* sets that must fit into clusters).                                      *)
(***************************************************************************)
ContainsMoral(f, M) == M \subseteq Fill(f.cl)
CoversAll(f, V) == UNION f.cl = V
OneChordalGraph(f, V) == Chordal(Fill(f.cl), V) /\ MaxCliques(Fill(f.cl), V) = f.cl
NoNesting(f) == \A c, d \in f.cl : c # d => ~(c \subseteq d)
FamiliesFit(f, fams) == \A F \in fams : \E c \in f.cl : F \subseteq c
SeparatorsRight(f) == \A s \in f.sp : s.a \in f.cl /\ s.b \in f.cl /\ s.a # s.b /\ s.vs = s.a \cap s.b /\ s.vs # {}

(* clusters linked by a set of separators *)
RECURSIVE CReach(_, _, _)
CReach(sp, seen, frontier) ==
    IF frontier = {} THEN seen
    ELSE LET nxt == {s.b : s \in {x \in sp : x.a \in frontier}}
                    \cup {s.a : s \in {x \in sp : x.b \in frontier}}
         IN  CReach(sp, seen \cup (nxt \ seen), nxt \ seen)
CComp(sp, c) == CReach(sp, {c}, {c})
Trees(f) == {CComp(f.sp, c) : c \in f.cl}

Forest(f) == Cardinality(f.sp) = Cardinality(f.cl) - Cardinality(Trees(f))
TreePerComponent(f, M, V) ==
    {UNION t : t \in Trees(f)} = {UComp(M, v) : v \in V}
RunningIntersection(f, V) ==
    \A v \in V :
       LET own == {c \in f.cl : v \in c}
           sp == {s \in f.sp : s.a \in own /\ s.b \in own /\ v \in s.vs}
       IN  own = {} \/ \E c \in own : CComp(sp, c) = own

Valid(f, M, V, fams) ==
    /\ ContainsMoral(f, M) /\ CoversAll(f, V) /\ OneChordalGraph(f, V) /\ NoNesting(f)
    /\ FamiliesFit(f, fams) /\ SeparatorsRight(f) /\ Forest(f)
    /\ TreePerComponent(f, M, V) /\ RunningIntersection(f, V)

(***************************************************************************)
(* The machine                                                             *)
(***************************************************************************)
VARIABLES phase, graph, verts, left, cur, forest
cvars == <<phase, graph, verts, left, cur, forest>>

CompileInit(V, G) ==
    /\ phase = "eliminate" /\ verts = V /\ graph = G
    /\ left = V /\ cur = G /\ forest = [cl |-> {}, sp |-> {}]

Eliminate(v) ==
    /\ phase = "eliminate" /\ v \in left
    /\ LET nb == {u \in left : u # v /\ {u, v} \in cur}
           c == nb \cup {v}
       IN  /\ cur' = {p \in cur \cup Pairs(nb) : v \notin p}
           /\ forest' = IF \E d \in forest.cl : c \subseteq d THEN forest
                        ELSE [forest EXCEPT !.cl = @ \cup {c}]
    /\ left' = left \ {v}
    /\ phase' = IF left = {v} THEN "span" ELSE phase
    /\ UNCHANGED <<graph, verts>>

Candidates ==
    {s \in {[vs |-> c \cap d, a |-> c, b |-> d] : c \in forest.cl, d \in forest.cl} :
        s.a # s.b /\ s.vs # {} /\ s.b \notin CComp(forest.sp, s.a)}
Span(s) ==
    /\ phase = "span"
    /\ s \in Candidates
    /\ \A t \in Candidates : Cardinality(t.vs) <= Cardinality(s.vs)
    /\ forest' = [forest EXCEPT !.sp = @ \cup {s}]
    /\ UNCHANGED <<phase, graph, verts, left, cur>>
Finish ==
    /\ phase = "span" /\ Candidates = {}
    /\ phase' = "done"
    /\ UNCHANGED <<graph, verts, left, cur, forest>>

CompileNext == (\E v \in left : Eliminate(v)) \/ (phase = "span" /\ \E s \in Candidates : Span(s)) \/ Finish
=============================================================================
