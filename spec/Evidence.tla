------------------------------ MODULE Evidence ------------------------------
(***************************************************************************)
(* Evidence as users supply it, and the likelihood it puts in force.       *)
(* Likelihoods are integers: One = certainty (1.0), 0 = impossible; One is *)
(* 4 (quarters), or 1000 when the environment says FINE=1.                 *)
(*                                                                         *)
(* A piece of evidence is a record                                         *)
(*   node  position of the variable (0 = a variable the tree does not have)*)
(*   type  "V" soft, "F" finding, "O" hard observation, "U" retraction     *)
(*   vals  sequence of <<value index, likelihood>> in the order supplied;  *)
(*         value index 0 = a value the variable does not have              *)
(***************************************************************************)
(* Findings and hard observations only compare likelihoods with each other *)
(* and with zero, so multiplying theirs by any positive number changes     *)
(* nothing; the harness does so, with numbers as small as 10^-15.  Soft    *)
(* evidence puts only ratios in force, so the harness also multiplies soft *)
(* likelihoods (neither flat nor certain) by factors down to 10^-12 where  *)
(* no table is observed.                                                   *)
EXTENDS BBN, IOUtils

One == IF "FINE" \in DOMAIN IOEnv THEN IF IOEnv.FINE = "1" THEN 1000 ELSE 4 ELSE 4
Card(net, ev) == net.card[ev.node]

ValidEv(net, ev) ==
    /\ ev.node \in Nodes(net)
    /\ \A k \in 1..Len(ev.vals) : ev.vals[k][1] \in 1..Card(net, ev)

(* Supplying a value twice keeps its first place and its last likelihood. *)
Supplied(ev, v) == \E k \in 1..Len(ev.vals) : ev.vals[k][1] = v
Raw(ev, v) ==
    IF Supplied(ev, v)
    THEN ev.vals[CHOOSE k \in 1..Len(ev.vals) :
                    /\ ev.vals[k][1] = v
                    /\ \A j \in (k+1)..Len(ev.vals) : ev.vals[j][1] # v][2]
    ELSE 0
FirstPlace(ev, v) ==
    CHOOSE k \in 1..Len(ev.vals) :
       /\ ev.vals[k][1] = v
       /\ \A j \in 1..(k-1) : ev.vals[j][1] # v
(* Order in which values are considered: as supplied, then the rest in the
   variable's own order. *)
PlaceOf(ev, v) == IF Supplied(ev, v) THEN FirstPlace(ev, v) ELSE Len(ev.vals) + v

Clamp(q) == Max2(0, Min2(One, q))

Hard(card, v) == [u \in 1..card |-> IF u = v THEN One ELSE 0]
AllOnes(card) == [u \in 1..card |-> One]

Winner(ev, card) ==
    CHOOSE v \in 1..card :
       \A u \in 1..card \ {v} :
          \/ Raw(ev, v) > Raw(ev, u)
          \/ Raw(ev, v) = Raw(ev, u) /\ PlaceOf(ev, v) < PlaceOf(ev, u)

Normalise(net, ev) ==
    LET card == Card(net, ev) IN
    CASE ev.type = "V" -> [v \in 1..card |-> Clamp(Raw(ev, v))]
      [] ev.type = "F" -> LET f == [v \in 1..card |-> IF Raw(ev, v) > 0 THEN One ELSE 0]
                          IN  IF \A v \in 1..card : f[v] = 0 THEN AllOnes(card) ELSE f
      [] ev.type = "O" -> Hard(card, Winner(ev, card))
      [] ev.type = "U" -> AllOnes(card)

IsHard(l) == \E v \in 1..Len(l) : l = Hard(Len(l), v)

NoEvidence(net) == [i \in 1..net.n |-> AllOnes(net.card[i])]

(* Likelihoods reduced to lowest terms per variable, with their denominator. *)
Reduce(l) ==
    LET g == Gcd(FoldLeft(LAMBDA a, b : Gcd(a, b), One, l), One)
    IN  [num |-> [v \in 1..Len(l) |-> l[v] \div g], den |-> One \div g]

LikIn(net, lik, C) ==
    [i \in 1..net.n |-> IF i \in C THEN Reduce(lik[i]).num
                        ELSE [v \in 1..net.card[i] |-> 1]]
LikDen(lik, C) == FoldSet(LAMBDA i, acc : acc * Reduce(lik[i]).den, 1, C)

=============================================================================
