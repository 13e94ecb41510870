------------------------------- MODULE MCGauss -------------------------------
(***************************************************************************)
(* All covariances L L' over 1..N with L unit-ish lower triangular, and    *)
(* all ways to observe variables in steps.  Conditioning in steps, in any  *)
(* order, is conditioning once.  The mean update as published (sign -1,    *)
(* reported negated) agrees for zero means and one step only.              *)
(***************************************************************************)
EXTENDS Gauss, IOUtils
VARIABLES L, Z, mean, md, dev, dd
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
N == IF Env("NODES") = "4" THEN 4 ELSE 3
V == 1..N
Low == {p \in V \X V : p[1] > p[2]}
S == [i \in V |-> [j \in V |->
        FoldSet(LAMBDA k, acc : acc + (IF k = i THEN 1 + (i % 2) ELSE L[<<i, k>>]) * (IF k = j THEN 1 + (j % 2) ELSE L[<<j, k>>]),
                0, {k \in V : k <= i /\ k <= j})]]
M0 == [i \in V |-> IF Env("ZERO") = "1" THEN 0 ELSE 2 * i - 3]
Obs(i) == i * i - 2
vars == <<L, Z, mean, md, dev, dd>>
MCInit == L \in [Low -> {-1, 0, 1}] /\ Z = <<>> /\ mean = M0 /\ md = 1 /\ dev = M0 /\ dd = 1
Free == V \ {Z[k] : k \in 1..Len(Z)}
Observe(q) ==
    LET A == Scaled(S, Z)
        z == [k \in 1..Len(q) |-> Obs(q[k])]
        f == [y \in V |-> IF y \in Free \ Range(q) THEN StepMean(mean, md, A, q, z, y, 1) ELSE <<Obs(y) * 1, 1>>]
        h == [y \in V |-> IF y \in Free \ Range(q) THEN StepMean(dev, dd, A, q, z, y, -1) ELSE <<Obs(y), 1>>]
        den == Det(Sub(A, q, q)) * md
        den2 == Det(Sub(A, q, q)) * dd
        g == FoldSet(LAMBDA y, acc : GcdG(acc, f[y][1]), den, Free \ Range(q))
        g2 == FoldSet(LAMBDA y, acc : GcdG(acc, h[y][1]), den2, Free \ Range(q))
    IN  /\ Z' = Z \o q
        /\ mean' = [y \in V |-> IF y \in Free \ Range(q) THEN f[y][1] \div g ELSE 0]
        /\ md' = den \div g
        /\ dev' = [y \in V |-> IF y \in Free \ Range(q) THEN h[y][1] \div g2 ELSE 0]
        /\ dd' = den2 \div g2
        /\ UNCHANGED L
MCNext == \E q \in {<<i>> : i \in Free} \cup {r \in Free \X Free : r[1] # r[2]} : Observe(q)
MCSpec == MCInit /\ [][MCNext]_vars
zs == [k \in 1..Len(Z) |-> Obs(Z[k])]
Positive == \A y \in Free : CondCov(S, Z, y, y) > 0 /\ CondDen(S, Z) > 0
StepsAgree == \A y \in Free : EqF(<<mean[y], md>>, CondMean(M0, S, Z, zs, y))
(* conditioning the conditional covariance: quotient property *)
Quotient ==
    Len(Z) > 0 =>
      LET A == Scaled(S, <<Z[1]>>) R == Tail(Z) IN
      \A y, w \in Free :
         Det(Sub(A, Append(R, y), Append(R, w))) * CondDen(S, Z)
           = CondCov(S, Z, y, w) * Det(Sub(A, R, R)) * CondDen(S, <<Z[1]>>)
(* the update as published, reported negated *)
Published == \A y \in Free : Z # <<>> => EqF(<<-dev[y], dd>>, CondMean(M0, S, Z, zs, y))
(* ... agrees for zero means and one step *)
PublishedOnce ==
    Env("ZERO") = "1" /\ Z = <<>> =>
      \A q \in {<<i>> : i \in V} \cup {r \in V \X V : r[1] # r[2]} : \A y \in V \ Range(q) :
        LET z == [k \in 1..Len(q) |-> Obs(q[k])] IN
        LET h == StepMean(M0, 1, S, q, z, y, -1) IN EqF(<<-h[1], h[2]>>, CondMean(M0, S, q, z, y))
=============================================================================
