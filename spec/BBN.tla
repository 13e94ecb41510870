-------------------------------- MODULE BBN --------------------------------
(***************************************************************************)
(* Exact semantics of discrete Bayesian networks with rational tables.     *)
(*                                                                         *)
(* A network is a record                                                   *)
(*   n    number of variables (positions 1..n)                             *)
(*   card <<number of values>> per position                                *)
(*   par  <<parent positions>> per position, in table order                *)
(*        (last parent varies fastest, then the child's own value)         *)
(*   den  <<common denominator>> of the table of each position             *)
(*   cpt  <<rows>> per position; a row is a sequence of integer weights     *)
(*   top  a topological order of the positions                             *)
(*                                                                         *)
(* Optionally                                                              *)
(*   ord  like cpt: the order of magnitude of every entry.  An entry of    *)
(*        order k stands for  weight/den * eps^k  with eps vanishingly     *)
(*        small, so exact answers are leading-order answers: only the      *)
(*        support points of least total order count.  The harness takes    *)
(*        eps = 10^-20, far below the tolerance of every comparison.       *)
(*                                                                         *)
(* A likelihood assignment lik is a sequence (per position) of sequences   *)
(* (per value) of integers; unobserved = all ones.                         *)
(* All arithmetic is exact; TLC integers are 32 bit and TLC reports        *)
(* overflow, so scenarios are generated within  prod(den)*prod(lik) <= 2e8.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
Range1(s) == {s[k] : k \in 1..Len(s)}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(* Decimal expansion of num/den (0 <= num <= den) in units of 10^-8, and   *)
(* more generally  floor(num * 10^8 / den).                                *)
(***************************************************************************)
RECURSIVE DigitsFrom(_, _, _, _)
DigitsFrom(rem, den, k, acc) ==
    IF k = 0 THEN acc
    ELSE DigitsFrom((rem * 10) % den, den, k - 1, acc * 10 + ((rem * 10) \div den))
Scale8(num0, den0) ==
    LET g == Gcd(num0, den0)
        num == num0 \div g
        den == den0 \div g
    IN  DigitsFrom(num % den, den, 8, num \div den)

Close(obs, num, den, tol) == Abs(obs - Scale8(num, den)) <= tol

(***************************************************************************)
(* Structure                                                               *)
(***************************************************************************)
Nodes(net) == 1..net.n
Parents(net, i) == Range1(net.par[i])
Family(net, i) == Parents(net, i) \cup {i}
Children(net, i) == {j \in Nodes(net) : i \in Parents(net, j)}

RECURSIVE ReachUG(_, _, _)
ReachUG(net, seen, frontier) ==
    IF frontier = {} THEN seen
    ELSE LET nxt == UNION {Parents(net, i) \cup Children(net, i) : i \in frontier} \ seen
         IN  ReachUG(net, seen \cup nxt, nxt)
(* The connected components, gathered along a topological order; MCSession
   checks that they are what ReachUG reaches. *)
Components(net) ==
    FoldLeft(LAMBDA cs, i :
               LET mine == {C \in cs : C \cap Family(net, i) # {}}
               IN  (cs \ mine) \cup {{i} \cup UNION mine},
             {}, net.top)
Component(net, i) == CHOOSE C \in Components(net) : i \in C

(***************************************************************************)
(* Joint distribution, as the set of its support points                    *)
(* <<assignment, weight, order>>                                           *)
(***************************************************************************)
RowIndex(net, i, a) ==
    1 + FoldLeft(LAMBDA acc, p : acc * net.card[p] + (a[p] - 1), 0, net.par[i])
Weight(net, i, a, v) == net.cpt[i][RowIndex(net, i, a)][v]

OrderAt(net, i, k, v) == IF "ord" \in DOMAIN net THEN net.ord[i][k][v] ELSE 0

Extend(net, S, i) ==
    UNION { LET k == RowIndex(net, i, s[1])
                row == net.cpt[i][k] IN
            { <<[s[1] EXCEPT ![i] = v], s[2] * row[v], s[3] + OrderAt(net, i, k, v)>> :
                v \in {u \in 1..net.card[i] : row[u] > 0} } : s \in S }

Support(net) ==
    FoldLeft(LAMBDA S, i : Extend(net, S, i),
             {<<[i \in 1..net.n |-> 0], 1, 0>>}, net.top)

DenAll(net) == ProdSeq(net.den)

(* The support as a sequence: iterated many times per scenario. *)
SupportSeq(net) == SetToSeq(Support(net))

(***************************************************************************)
(* Conditioning                                                            *)
(***************************************************************************)
UnobservedLik(net) == [i \in 1..net.n |-> [v \in 1..net.card[i] |-> 1]]
(* positions whose likelihood is not all-ones *)
Touched(net, lik) == {i \in Nodes(net) : \E v \in 1..net.card[i] : lik[i][v] # 1}

(* The points of least order: all of them unless the network has rare values. *)
Leading(net, ws) ==
    IF "ord" \notin DOMAIN net \/ ws = <<>> THEN ws
    ELSE LET least == FoldLeft(LAMBDA acc, e : Min2(acc, e[3]), ws[1][3], ws)
         IN  SelectSeq(ws, LAMBDA e : e[3] = least)

(* Weighted support, dropping points that the evidence excludes. *)
Weighted(net, sup, lik) ==
    LET t == SetToSeq(Touched(net, lik)) IN
    Leading(net, IF t = <<>> THEN sup
    ELSE SelectSeq(
           [k \in 1..Len(sup) |->
              <<sup[k][1],
                FoldLeft(LAMBDA acc, i : IF acc = 0 THEN 0 ELSE acc * lik[i][sup[k][1][i]],
                         sup[k][2], t),
                sup[k][3]>>],
           LAMBDA e : e[2] > 0))

Mass(ws) == FoldLeft(LAMBDA acc, e : acc + e[2], 0, ws)
MassWhere(ws, P(_)) == FoldLeft(LAMBDA acc, e : IF P(e[1]) THEN acc + e[2] ELSE acc, 0, ws)

(* Unnormalised marginal of position i: sequence of numerators per value. *)
MargNum(net, ws, i) ==
    FoldLeft(LAMBDA acc, e : [acc EXCEPT ![e[1][i]] = @ + e[2]],
             [v \in 1..net.card[i] |-> 0], ws)

(***************************************************************************)
(* Posterior of position i in units of 10^-8, when the evidence has        *)
(* positive probability.                                                   *)
(***************************************************************************)
Post8(net, ws, i) ==
    LET m == MargNum(net, ws, i)
        z == SumSeq(m)
    IN  [v \in 1..net.card[i] |-> Scale8(m[v], z)]

=============================================================================
