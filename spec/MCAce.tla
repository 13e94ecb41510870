-------------------------------- MODULE MCAce --------------------------------
(***************************************************************************)
(* Adjusting for the parents of X gives the truncated factorisation: for   *)
(* every DAG over N variables, every pair, and tables drawn from a pool.   *)
(***************************************************************************)
EXTENDS Ace, IOUtils
VARIABLES net
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
N == IF Env("NODES") = "4" THEN 4 ELSE 3
(* parents of i among 1..i-1 in a fixed order: every DAG up to renaming *)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a > b)
(* a fixed pool of tables per variable keeps the product small *)
Table(i, k, seed) == [r \in 1..Pow(2, k) |->
    LET c == (r * 7 + i * 3 + seed * 5 + r * r * seed) % 3 IN
    IF c = 0 THEN <<1, 2>> ELSE IF c = 1 THEN <<2, 1>> ELSE IF seed % 2 = 0 THEN <<3, 0>> ELSE <<0, 3>>]
MCInit ==
    \E P \in [1..N -> SUBSET (1..N)] : \E seed \in 0..(IF N = 4 THEN 3 ELSE 9) :
      /\ \A i \in 1..N : P[i] \subseteq 1..(i - 1)
      /\ net = [n |-> N, card |-> [i \in 1..N |-> 2], par |-> [i \in 1..N |-> Ordered(P[i])],
                den |-> [i \in 1..N |-> 3], cpt |-> [i \in 1..N |-> Table(i, Cardinality(P[i]), seed)],
                top |-> [i \in 1..N |-> i]]
MCSpec == MCInit /\ [][UNCHANGED net]_net
AdjustmentIsIntervention ==
    \A x \in 1..N : Positive(net, x) =>
      \A y \in 1..N \ {x} : \A v \in 1..2 :
         LET a == Adjusted(net, x, v, y, 1)
             b == IntervNum(net, x, v, y, 1)
         IN  a[1] * b[2] = b[1] * a[2]
=============================================================================
