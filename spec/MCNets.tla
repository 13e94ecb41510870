-------------------------------- MODULE MCNets --------------------------------
(***************************************************************************)
(* Tables under reordering of parents, for a child with three parents of   *)
(* 1, 2 or 3 values: the comparison of networks by meaning accepts exactly *)
(* the tables whose rows are permuted along with the parents.              *)
(***************************************************************************)
EXTENDS Nets, IOUtils
VARIABLES card, ord
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
P == {"a", "b", "c"}
MCInit == card \in [P -> 1..3] /\ ord \in {s \in [1..3 -> P] : Range1(s) = P}
MCSpec == MCInit /\ [][UNCHANGED <<card, ord>>]_<<card, ord>>
Vals(k) == [v \in 1..k |-> v]
(* a table in which each configuration has its own row *)
Mark(c) == c["a"] * 16 + c["b"] * 4 + c["c"]
RECURSIVE Prod(_, _)
Prod(o, c0) == IF o = <<>> THEN << c0 >>
              ELSE FlattenSeq([v \in 1..card[o[1]] |-> Prod(Tail(o), c0 @@ (o[1] :> v))])
View(o, rowsOrd) ==
    [vars |-> [k \in 1..3 |-> LET p == <<"a", "b", "c">>[k] IN
                 [name |-> p, id |-> k, vals |-> Vals(card[p]), par |-> <<>>, rows |-> << Vals(card[p]) >>]]
              \o << [name |-> "x", id |-> 9, vals |-> <<1, 2>>, par |-> o,
                     rows |-> LET q == Prod(rowsOrd, <<>>) IN
                              [k \in 1..Len(q) |-> <<Mark(q[k]) * 1000, -Mark(q[k]) * 1000>>]] >>,
     edges |-> [k \in 1..3 |-> <<o[k], "x">>]]
Mark0 == [a |-> 1, b |-> 2, c |-> 3]
Base == View(<<"a", "b", "c">>, <<"a", "b", "c">>)
Along == NetsDiff(Base, View(ord, ord)) = {}
(* rows left in the old order under a new order of parents are noticed whenever that matters *)
Stale ==
    LET stale == View(ord, <<"a", "b", "c">>) IN
    (NetsDiff(Base, stale) = {}) <=>
      \A p, q \in P : LET at(x) == CHOOSE k \in 1..3 : ord[k] = x IN
                      Mark0[p] < Mark0[q] /\ at(p) > at(q) => card[p] = 1 \/ card[q] = 1
=============================================================================
