-------------------------------- MODULE MCPaths --------------------------------
(***************************************************************************)
(* For every DAG with arcs from smaller to larger numbers over 1..N (every *)
(* DAG up to renaming), every pair and every set of observed nodes.        *)
(***************************************************************************)
EXTENDS Paths, IOUtils
VARIABLE D
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
N == IF Env("NODES") = "5" THEN 5 ELSE 4
V == 1..N
MCInit == D \in SUBSET {p \in V \X V : p[1] < p[2]}
MCSpec == MCInit /\ [][UNCHANGED D]_D
(* d-separated iff no path is active *)
PathsDecide ==
    \A x, y \in V : x < y =>
      LET P == SimplePaths(D, x, y) IN
      \A S \in SUBSET (V \ {x, y}) : DSep(D, x, y, S) <=> \A p \in P : ~Active(D, p, S)
(* choosing one inner node per active back-door path always succeeds *)
ConfoundersExist ==
    \A x, y \in V : x # y /\ <<y, x>> \notin D =>
      LET P == SimplePaths(D, x, y) IN
      /\ \A p \in ActiveBack(D, P) : Inner(p) # {} /\ CollidersOf(D, p) = {}
      /\ GoodConfounders(D, x, y, P, UNION {Inner(p) : p \in ActiveBack(D, P)})
(* with no arc into X left open, X is independent of Y given its parents once its outgoing arcs go *)
BackDoor ==
    \A x, y \in V : x # y /\ <<y, x>> \notin D =>
      DSep({a \in D : a[1] # x}, x, y, Pred(D, x))
MediatorsExist ==
    \A x, y \in V : x # y =>
      LET P == SimplePaths(D, x, y) IN
      GoodMediators(D, x, y, P, UNION {Inner(p) : p \in ActiveFront(D, P)} \ AllColliders(D, P))
=============================================================================
