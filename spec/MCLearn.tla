------------------------------- MODULE MCLearn -------------------------------
(***************************************************************************)
(* All data sets of R records over 3 binary columns (columns may be        *)
(* constant), under every structure with arcs from smaller to larger       *)
(* numbers: the learned network is valid, reproduces each family whose     *)
(* parents form an ancestral complete set, and under the complete          *)
(* structure the data themselves.                                          *)
(***************************************************************************)
EXTENDS Learn, IOUtils
VARIABLES data, arcs
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
R == IF Env("RECORDS") = "5" THEN 5 ELSE 3
Card == <<2, 2, 2>>
Rec == [1..3 -> 1..2]
MCInit == /\ arcs \in SUBSET {<<1, 2>>, <<1, 3>>, <<2, 3>>}
          /\ data \in [1..R -> Rec]
          /\ \A k \in 1..(R - 1) : LET w(r) == r[1] * 4 + r[2] * 2 + r[3] IN w(data[k]) <= w(data[k + 1])
MCSpec == MCInit /\ [][UNCHANGED <<data, arcs>>]_<<data, arcs>>
Par == [c \in 1..3 |-> SetToSortSeq({p \in 1..3 : <<p, c>> \in arcs}, <)]
Net == LearnedNet(data, Card, Par, <<1, 2, 3>>)
Valid == \A c \in 1..3 : \A k \in 1..Len(Net.cpt[c]) :
            /\ SumSeq(Net.cpt[c][k]) = Net.den[c] /\ \A v \in 1..2 : Net.cpt[c][k][v] >= 0
            /\ Len(Net.cpt[c]) = ProdSeq([j \in 1..Len(Par[c]) |-> 2])
MassL(P(_)) == FoldLeft(LAMBDA acc, r : IF P(r) THEN acc + 1 ELSE acc, 0, data)
(* joint of a family in the network = its frequency, when the parents are themselves a complete family *)
CompleteUp(c) == \A p, q \in Parents(Net, c) : p < q => <<p, q>> \in arcs
Families ==
    LET sup == SupportSeq(Net) z == Mass(sup) IN
    \A c \in 1..3 : (\A p \in Parents(Net, c) \cup {c} : CompleteUp(p) /\ \A g \in Parents(Net, p) : g \in Parents(Net, c) \/ p = c \/ CompleteUp(g)) =>
       \A q \in [Family(Net, c) -> 1..2] :
         MassWhere(sup, LAMBDA a : \A p \in DOMAIN q : a[p] = q[p]) * R
           = MassL(LAMBDA r : \A p \in DOMAIN q : r[p] = q[p]) * z
Complete == Cardinality(arcs) = 3 =>
    LET sup == SupportSeq(Net) z == Mass(sup) IN
    \A q \in Rec : MassWhere(sup, LAMBDA a : a = q) * R = MassL(LAMBDA r : r = q) * z
=============================================================================
