------------------------------ MODULE MCGenerate ------------------------------
(***************************************************************************)
(* The random moves by which structures are generated, over 1..N from the  *)
(* chain 1 -> 2 -> ... -> N, as a transition system: every reachable       *)
(* structure is a connected acyclic graph over all nodes; a forest under   *)
(* the singly connected moves.                                             *)
(***************************************************************************)
EXTENDS Nets, IOUtils
VARIABLES arcs, mode
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
N == IF Env("NODES") = "5" THEN 5 ELSE 4
V == 1..N
vars == <<arcs, mode>>
MCInit == arcs = {<<i, i + 1>> : i \in 1..(N - 1)} /\ mode \in {"singly", "multi"}
(* an arc goes unless that would disconnect, or comes unless that closes a cycle *)
Toggle(i, j) ==
    /\ mode = "multi"
    /\ arcs' = IF <<i, j>> \in arcs
               THEN IF ConnectedN(V, arcs \ {<<i, j>>}) THEN arcs \ {<<i, j>>} ELSE arcs
               ELSE IF AcyclicN(arcs \cup {<<i, j>>}) THEN arcs \cup {<<i, j>>} ELSE arcs
(* some parent of j is let go for an arc between i and j, unless that would disconnect *)
Swap(i, j) ==
    /\ mode = "singly"
    /\ <<i, j>> \notin arcs /\ <<j, i>> \notin arcs
    /\ \E k \in V : /\ <<k, j>> \in arcs
                    /\ \E a \in {<<i, j>>, <<j, i>>} :
                         LET new == (arcs \ {<<k, j>>}) \cup {a} IN
                         arcs' = IF ConnectedN(V, new) \/ Env("CARELESS") = "1" THEN new ELSE arcs
MCNext == /\ \E i, j \in V : i # j /\ (Toggle(i, j) \/ Swap(i, j))
          /\ mode' = mode
MCSpec == MCInit /\ [][MCNext]_vars
Ok == /\ ConnectedN(V, arcs) /\ AcyclicN(arcs)
      /\ \A a \in arcs : a[1] \in V /\ a[2] \in V /\ a[1] # a[2]
      /\ mode = "singly" => SinglyN(V, arcs) /\ Cardinality(arcs) = N - 1
=============================================================================
