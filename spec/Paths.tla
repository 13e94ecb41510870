-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Paths in a DAG over 1..n with arcs D, their activity, d-separation by   *)
(* the moralised ancestral graph, and the sets reported for a pair.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RangeP(s) == {s[k] : k \in 1..Len(s)}
Succ(D, v) == {a[2] : a \in {b \in D : b[1] = v}}
Pred(D, v) == {a[1] : a \in {b \in D : b[2] = v}}
RECURSIVE Down(_, _, _)
Down(D, seen, fr) == IF fr = {} THEN seen
                     ELSE LET nx == UNION {Succ(D, v) : v \in fr} \ seen IN Down(D, seen \cup nx, nx)
Desc(D, v) == Down(D, Succ(D, v), Succ(D, v))          \* proper descendants in a DAG
RECURSIVE Up(_, _, _)
Up(D, seen, fr) == IF fr = {} THEN seen
                   ELSE LET nx == UNION {Pred(D, v) : v \in fr} \ seen IN Up(D, seen \cup nx, nx)
AncOrSelf(D, S) == Up(D, S, S)
AcyclicD(D) == \A a \in D : a[1] \notin Desc(D, a[1])

Nb(D, v) == Succ(D, v) \cup Pred(D, v)
RECURSIVE Grow(_, _, _)
Grow(D, y, P) ==
    IF P = {} THEN {}
    ELSE LET ends == {p \in P : p[Len(p)] = y}
             more == UNION {{Append(p, w) : w \in Nb(D, p[Len(p)]) \ RangeP(p)} : p \in P \ ends}
         IN  ends \cup Grow(D, y, more)
SimplePaths(D, x, y) == Grow(D, y, {<<x>>})

Kind(D, a, b, c) ==
    IF <<a, b>> \in D /\ <<c, b>> \in D THEN "converging"
    ELSE IF <<b, a>> \in D /\ <<b, c>> \in D THEN "diverging" ELSE "serial"
CollidersOf(D, p) == {p[k] : k \in {j \in 2..(Len(p) - 1) : Kind(D, p[j - 1], p[j], p[j + 1]) = "converging"}}
Inner(p) == {p[k] : k \in 2..(Len(p) - 1)}
Active(D, p, S) ==
    LET col == CollidersOf(D, p) IN
    /\ \A v \in Inner(p) \ col : v \notin S
    /\ \A v \in col : v \in S \/ Desc(D, v) \cap S # {}

(* d-separation without paths: separation in the moral graph of ancestors *)
MoralAnc(D, A) ==
    {{a[1], a[2]} : a \in {b \in D : b[1] \in A /\ b[2] \in A}}
    \cup {{q[1], q[2]} : q \in {r \in A \X A : r[1] # r[2] /\ \E v \in A : {r[1], r[2]} \subseteq Pred(D, v)}}
RECURSIVE Flood(_, _, _, _)
Flood(G, S, seen, fr) ==
    IF fr = {} THEN seen
    ELSE LET nx == {v \in UNION G : \E u \in fr : u # v /\ {u, v} \in G} \ (seen \cup S)
         IN  Flood(G, S, seen \cup nx, nx)
DSep(D, x, y, S) ==
    LET A == AncOrSelf(D, {x, y} \cup S) IN y \notin Flood(MoralAnc(D, A), S, {x}, {x})

BackPath(D, p) == <<p[2], p[1]>> \in D
FrontPath(D, p) == <<p[1], p[2]>> \in D

(***************************************************************************)
(* Reported sets                                                           *)
(***************************************************************************)
ActiveBack(D, P) == {p \in P : BackPath(D, p) /\ Active(D, p, {})}
InactiveBack(D, P) == {p \in P : BackPath(D, p) /\ ~Active(D, p, {})}
ActiveFront(D, P) == {p \in P : FrontPath(D, p) /\ Active(D, p, {})}

AllConfounders(D, x, P) ==
    UNION {Inner(p) : p \in ActiveBack(D, P)}
      \ (Desc(D, x) \cup UNION {CollidersOf(D, p) : p \in InactiveBack(D, P)})
GoodConfounders(D, x, y, P, C) ==
    /\ x \notin C /\ y \notin C
    /\ \A p \in ActiveBack(D, P) : ~Active(D, p, C)
AllColliders(D, P) == UNION {CollidersOf(D, p) : p \in P}
GoodMediators(D, x, y, P, M) ==
    /\ x \notin M /\ y \notin M
    /\ M \subseteq UNION {Inner(p) : p \in ActiveFront(D, P)}
    /\ M \cap AllColliders(D, P) = {}
    /\ \A p \in ActiveFront(D, P) :
          Inner(p) # {} /\ Inner(p) \cap AllColliders(D, P) = {} => ~Active(D, p, M)
=============================================================================
