------------------------------- MODULE Sampler -------------------------------
(***************************************************************************)
(* Forward sampling with rejection.  Variables are drawn one by one, each  *)
(* once all its parents are drawn, from the table row of its parents'      *)
(* values; a value that disagrees with the evidence discards the draw.     *)
(* `wt` is the product of the table weights used so far.                   *)
(***************************************************************************)
EXTENDS BBN
VARIABLES snet, ev, part, wt, wanted, got
sampvars == <<snet, ev, part, wt, wanted, got>>

(* ev: set of <<position, value>> *)
Agrees(a, e) == \A p \in e : a[p[1]] = p[2]
Blank(net) == [i \in Nodes(net) |-> 0]

SampInit(net, e, k) ==
    /\ snet = net /\ ev = e /\ wanted = k
    /\ part = Blank(net) /\ wt = 1 /\ got = <<>>
Ready(i) == part[i] = 0 /\ \A p \in Parents(snet, i) : part[p] # 0
Draw(i, v) ==
    /\ Len(got) < wanted
    /\ Ready(i)
    /\ Weight(snet, i, part, v) > 0
    /\ IF \E p \in ev : p[1] = i /\ p[2] # v
       THEN part' = Blank(snet) /\ wt' = 1
       ELSE part' = [part EXCEPT ![i] = v] /\ wt' = wt * Weight(snet, i, part, v)
    /\ UNCHANGED <<snet, ev, wanted, got>>
Complete == \A i \in Nodes(snet) : part[i] # 0
Accept ==
    /\ Complete /\ Len(got) < wanted
    /\ got' = Append(got, part) /\ part' = Blank(snet) /\ wt' = 1
    /\ UNCHANGED <<snet, ev, wanted>>
SampNext == (\E i \in Nodes(snet) : \E v \in 1..snet.card[i] : Draw(i, v)) \/ Accept

(***************************************************************************)
(* What samples must satisfy                                               *)
(***************************************************************************)
FullAssignment(net, a) == Len(a) = net.n /\ \A i \in 1..net.n : a[i] \in 1..net.card[i]
PositiveProb(net, a) == \A i \in 1..net.n : Weight(net, i, a, a[i]) > 0
GoodSample(net, e, a) == FullAssignment(net, a) /\ Agrees(a, e) /\ PositiveProb(net, a)

(* Completed draws carry exactly their joint weight: accepted draws are    *)
(* distributed as the joint distribution restricted to the evidence.       *)
JointWeight(net, a) == FoldLeft(LAMBDA acc, i : acc * Weight(net, i, a, a[i]), 1, net.top)
WeightIsJoint == Complete => wt = JointWeight(snet, part) /\ GoodSample(snet, ev, part)
OnlyGood == Len(got) <= wanted /\ \A k \in 1..Len(got) : GoodSample(snet, ev, got[k])

(***************************************************************************)
(* Frequencies.  cnt: sequence of <<assignment, count>>; ws: the weighted  *)
(* support under the evidence.  keys are projections to a sequence vs.     *)
(***************************************************************************)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtFrom(n, y)
ISqrt(n) == IF n < 2 THEN n ELSE ISqrtFrom(n, n)

Project(seq, vs) ==
    FoldLeft(LAMBDA acc, e :
        LET key == [k \in 1..Len(vs) |-> e[1][vs[k]]]
        IN  IF key \in DOMAIN acc THEN [acc EXCEPT ![key] = @ + e[2]] ELSE acc @@ (key :> e[2]),
        <<>>, seq)
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
(* num/den as parts of 10^5 *)
Scale5(num, den) == Scale8(num, den) \div 1000
(* N draws, an event of probability p5 * 10^-5: is the count c plausible? (N <= 20000) *)
Plausible(N, p5, c, sigmas) ==
    LET E == (N * p5) \div 100000
        var == (E * (N - E)) \div N + 1
    IN  Abs(c - E) <= sigmas * (ISqrt(var) + 1) + 3
(* names of the projections whose counts are implausible *)
OffBy(N, ws, Z, cnt, vs, sigmas) ==
    LET want == Project(ws, vs)
        have == Project(cnt, vs)
    IN  \E key \in DOMAIN want \cup DOMAIN have :
           ~Plausible(N, Scale5(At(want, key), Z), At(have, key), sigmas)
=============================================================================
