------------------------------ MODULE TraceGauss ------------------------------
(***************************************************************************)
(* Recorded Gaussian inference.  The state maps each handle to the         *)
(* variables observed so far (Z, z) and to the mean that the update as     *)
(* published yields (D/dd, reported negated): a reported mean that is not  *)
(* the conditional mean but is exactly that one is the known sign defect,  *)
(* clause "mean-sign"; any other deviation is clause "mean".               *)
(***************************************************************************)
EXTENDS Gauss, TraceBase
VARIABLES M, S, hs, tid, l, bad
E == Traces[tid].ev[l + 1]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ M = <<>> /\ S = <<>> /\ hs = <<>>

ReportClauses(H, m, s, e) ==
    LET n == Len(m)
        seen == {H.Z[k] : k \in 1..Len(H.Z)}
        free == SelectSeq(e.order, LAMBDA v : v \notin seen)
        rep(v) == CHOOSE k \in 1..Len(e.rep) : e.rep[k][1] = v
        named == {e.rep[k][1] : k \in 1..Len(e.rep)}
        zv(v) == H.z[CHOOSE k \in 1..Len(H.Z) : H.Z[k] = v]
        exact(v) == CondMean(m, s, H.Z, H.z, v)
        publ(v) == <<-H.D[v], H.dd>>
        den == CondDen(s, H.Z)
    IN  If(named # 1..n \/ Len(e.rep) # n, "reported-names")
        \cup If(e.head # free, "remaining-variables")
        \cup If(e.head = free /\
                \/ Len(e.cov) # Len(free)
                \/ \E i \in 1..Len(e.cov) : Len(e.cov[i]) # Len(free)
                \/ \E i, j \in 1..Len(free) : ~NearF(e.cov[i][j], <<CondCov(s, H.Z, free[i], free[j]), den>>),
                "covariance")
        \cup If(~e.marg, "marginals-differ-from-parameters")
        \cup UNION {
               IF v \in seen
               THEN If(~NearF(e.rep[rep(v)][2], <<zv(v), 1>>), "observed-value")
                    \cup If(e.rep[rep(v)][3] # 0, "observed-variance")
               ELSE If(~NearF(e.rep[rep(v)][3], <<CondCov(s, H.Z, v, v), den>>), "variance")
                    \cup IF NearF(e.rep[rep(v)][2], exact(v)) THEN {}
                         ELSE IF NearF(e.rep[rep(v)][2], publ(v)) THEN {"mean-sign"} ELSE {"mean"}
               : v \in named \cap 1..n }

(* 10000 draws per variable: mean within 6 standard errors, variance within 8 % (6 se) *)
SampleVar(k) == IF k > 10000 THEN 20000000 ELSE (k * k) \div 5 + 1
SampleClauses(H, m, s, e) ==
    LET n == Len(m)
        seen == {H.Z[k] : k \in 1..Len(H.Z)}
        named == {e.smp[k].v : k \in 1..Len(e.smp)}
        den == CondDen(s, H.Z)
    IN  If(named # 1..n \/ Len(e.smp) # n, "sampled-names")
        \cup UNION { LET x == e.smp[k]
                         dm == IF AbsG(x.mean - x.rep) > 10000 THEN 10000 ELSE AbsG(x.mean - x.rep)   \* thousandths
                         vm == (1000 * CondCov(s, H.Z, x.v, x.v)) \div den IN
              If(x.size # e.size, "sample-size")
              \cup IF x.v \in seen THEN If(dm > (IF e.size >= 1000 THEN 2 * x.k + 1 ELSE 70 * x.k) \/ x.var > SampleVar(x.k), "sample-observed")
                   ELSE If(e.size >= 1000 /\ (e.size \div 1000) * dm * dm > 36 * (vm + 2) + 50, "sample-mean")
                        \cup If(e.size = 10000 /\ AbsG(x.var - vm) > (9 * vm) \div 100 + 2, "sample-variance")
              : k \in {j \in 1..Len(e.smp) : e.smp[j].v \in 1..n} }

Step(H, m, s, obs) ==
    LET q == [k \in 1..Len(obs) |-> obs[k][1]]
        z == [k \in 1..Len(obs) |-> obs[k][2]]
        A == Scaled(s, H.Z)
        gone == {H.Z[k] : k \in 1..Len(H.Z)} \cup {q[k] : k \in 1..Len(q)}
        f == [y \in 1..Len(m) |-> IF y \in gone THEN <<0, 1>> ELSE StepMean(H.D, H.dd, A, q, z, y, -1)]
        den == Det(Sub(A, q, q)) * H.dd
        g == FoldSet(LAMBDA y, acc : GcdG(acc, f[y][1]), den, (1..Len(m)) \ gone)
    IN  [Z |-> H.Z \o q, z |-> H.z \o z, D |-> [y \in 1..Len(m) |-> f[y][1] \div g], dd |-> den \div g]

New(e) ==
    IF e.op = "normal" THEN (e.h :> [Z |-> <<>>, z |-> <<>>, D |-> e.m, dd |-> 1])
    ELSE IF e.op = "observe" THEN (e.dst :> Step(hs[e.h], M, S, e.obs)) @@ hs
    ELSE hs
Verdict(e, m, s, now) ==
    If(e.err # "", "unexpected-error")
    \cup IF e.err # "" THEN {}
         ELSE IF e.op = "sample" THEN SampleClauses(now[e.h], m, s, e) \cup If(~e.same, "source-changed")
         ELSE ReportClauses(now[IF e.op = "observe" THEN e.dst ELSE e.h], m, s, e)
              \cup If(~e.same, "source-changed")
TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ M' = IF E.op = "normal" THEN E.m ELSE M
    /\ S' = IF E.op = "normal" THEN E.s ELSE S
    /\ hs' = New(E)
    /\ bad' = Verdict(E, M', S', hs')
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_<<M, S, hs, tid, l, bad>>
=============================================================================
