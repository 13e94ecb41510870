--------------------------------- MODULE Nets ---------------------------------
(***************************************************************************)
(* Networks by the meaning of their tables, whatever the order in which    *)
(* nodes, edges and parents are held.  A view is                           *)
(*   [vars: <<[name, id, vals, par: <<names, in table order>>, rows]>>,    *)
(*    edges: <<<<parent name, child name>>>>]                              *)
(* rows: one row (10^-8) per parent configuration, last parent fastest.    *)
(***************************************************************************)
EXTENDS BBN
NTol == 2
Names(N) == {N.vars[k].name : k \in 1..Len(N.vars)}
OneName(N) == Cardinality(Names(N)) = Len(N.vars)
VarN(N, x) == CHOOSE v \in Range1(N.vars) : v.name = x
Arcs(N) == Range1(N.edges)
CardN(N, x) == Len(VarN(N, x).vals)
Ways(N, v) == FoldLeft(LAMBDA acc, p : acc * CardN(N, p), 1, v.par)
(* configurations: functions from the parents to value positions *)
Configs(N, P) == {c \in [P -> 1..FoldSet(LAMBDA p, m : Max2(m, CardN(N, p)), 1, P)] : \A p \in P : c[p] <= CardN(N, p)}
RowOf(N, v, c) == v.rows[1 + FoldLeft(LAMBDA acc, p : acc * CardN(N, p) + (c[p] - 1), 0, v.par)]
NearRow(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= NTol

WellShaped(N) ==
    /\ OneName(N)
    /\ \A v \in Range1(N.vars) :
         /\ Range1(v.par) \subseteq Names(N) \ {v.name}
         /\ Cardinality(Range1(v.par)) = Len(v.par)
         /\ Len(v.rows) = Ways(N, v)
         /\ \A r \in Range1(v.rows) : Len(r) = Len(v.vals)
    /\ \A e \in Arcs(N) : e[1] \in Names(N) /\ e[2] \in Names(N)
    /\ Len(N.edges) = Cardinality(Arcs(N))
    /\ Arcs(N) = {e \in Names(N) \X Names(N) : e[1] \in Range1(VarN(N, e[2]).par)}
Distributions(N) ==
    \A v \in Range1(N.vars) : \A r \in Range1(v.rows) :
        (\A k \in 1..Len(r) : r[k] >= 0 /\ r[k] <= 100000000) /\ Abs(SumSeq(r) - 100000000) <= 2 * Len(r)

(* how B differs from A *)
NetsDiff(A, B) ==
    IF ~WellShaped(B) THEN {"shape"}
    ELSE IF Names(A) # Names(B) \/ \E x \in Names(A) : VarN(A, x).vals # VarN(B, x).vals THEN {"variables"}
    ELSE (IF Arcs(A) # Arcs(B) THEN {"edges"} ELSE {})
         \cup (IF \A x \in Names(A) :
                     LET a == VarN(A, x) b == VarN(B, x) IN
                     Range1(a.par) = Range1(b.par) =>
                       \A c \in Configs(A, Range1(a.par)) : NearRow(RowOf(A, a, c), RowOf(B, b, c))
               THEN {} ELSE {"probabilities"})
IdsDiff(A, B) == IF WellShaped(B) /\ Names(A) = Names(B) /\ \E x \in Names(A) : VarN(A, x).id # VarN(B, x).id
                 THEN {"identifiers"} ELSE {}
DistinctIds(N) == Cardinality({N.vars[k].id : k \in 1..Len(N.vars)}) = Len(N.vars)

RECURSIVE ReachN(_, _, _)
ReachN(R, seen, fr) == IF fr = {} THEN seen
    ELSE LET nx == {e[2] : e \in {a \in R : a[1] \in fr}} \ seen IN ReachN(R, seen \cup nx, nx)
AcyclicN(R) == \A e \in R : e[1] \notin ReachN(R, {e[2]}, {e[2]})
Both(R) == R \cup {<<e[2], e[1]>> : e \in R}
ConnectedN(V, R) == \A x \in V : ReachN(Both(R), {x}, {x}) = V
(* at most one undirected path between any two nodes: a forest *)
SinglyN(V, R) == \A e \in R : e[2] \notin ReachN(Both(R \ {e}), {e[1]}, {e[1]})
=============================================================================
