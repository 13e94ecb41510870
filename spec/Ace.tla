--------------------------------- MODULE Ace ---------------------------------
(***************************************************************************)
(* Intervention: the network in which X's own table is replaced by the set *)
(* value (truncated factorisation), and the adjustment formula over the    *)
(* parents of X.                                                           *)
(***************************************************************************)
EXTENDS BBN

RemoveAt1(s, x) == SelectSeq(s, LAMBDA y : y # x)
Mutilate(net, x, v) ==
    [net EXCEPT !.par[x] = <<>>, !.den[x] = 1,
                !.cpt[x] = << [u \in 1..net.card[x] |-> IF u = v THEN 1 ELSE 0] >>]
(* the probability (10^-8) of Y = w when X is set to v *)
Interventional(net, x, v, y, w) ==
    LET m == Mutilate(net, x, v)
        ws == SupportSeq(m)
    IN  Post8(m, ws, y)[w]
IntervNum(net, x, v, y, w) ==
    LET m == Mutilate(net, x, v) ws == SupportSeq(m) n == MargNum(m, ws, y) IN <<n[w], SumSeq(n)>>

(* every parent configuration of X that can occur leaves every value of X possible *)
Positive(net, x) ==
    \A s \in Support(net) : \A v \in 1..net.card[x] : Weight(net, x, s[1], v) > 0

(* sum over z of P(y | x, z) P(z), as a reduced fraction *)
RAdd(a, b) == LET n == a[1] * b[2] + b[1] * a[2] d == a[2] * b[2] g == Gcd(n, d) IN <<n \div g, d \div g>>
RMul(a, b) == LET n == a[1] * b[1] d == a[2] * b[2] g == Gcd(n, d) IN <<n \div g, d \div g>>
Adjusted(net, x, v, y, w) ==
    LET sup == SupportSeq(net)
        Z == Parents(net, x)
        zs == {[p \in Z |-> sup[k][1][p]] : k \in 1..Len(sup)}
        mass(P(_)) == FoldLeft(LAMBDA acc, s : IF P(s[1]) THEN acc + s[2] ELSE acc, 0, sup)
        all == mass(LAMBDA a : TRUE)
        term(z) ==
           LET xz == mass(LAMBDA a : a[x] = v /\ \A p \in Z : a[p] = z[p])
               yxz == mass(LAMBDA a : a[y] = w /\ a[x] = v /\ \A p \in Z : a[p] = z[p])
               pz == mass(LAMBDA a : \A p \in Z : a[p] = z[p])
           IN  RMul(LET g == Gcd(yxz, xz) IN <<yxz \div g, xz \div g>>,
                    LET g == Gcd(pz, all) IN <<pz \div g, all \div g>>)
    IN  FoldSet(LAMBDA z, acc : RAdd(acc, term(z)), <<0, 1>>, zs)
=============================================================================
