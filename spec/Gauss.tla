-------------------------------- MODULE Gauss --------------------------------
(***************************************************************************)
(* Multivariate normals with integer mean M and covariance S over 1..n,    *)
(* conditioned on observations, in exact arithmetic (ratios of minors).    *)
(* Values are fractions <<numerator, positive denominator>>.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

RECURSIVE Det(_)
Minor(A, r, c) == [i \in 1..(Len(A) - 1) |-> RemoveAt(A[IF i < r THEN i ELSE i + 1], c)]
Det(A) == IF Len(A) = 0 THEN 1
          ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE FoldLeftDomain(LAMBDA acc, j :
                  IF A[1][j] = 0 THEN acc
                  ELSE acc + (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(Minor(A, 1, j)), 0, A[1])
Sub(A, rows, cols) == [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> A[rows[i]][cols[j]]]]

(* det [A_ZZ v; A_yZ 0] = - A_yZ inv(A_ZZ) v det(A_ZZ) *)
Bordered(A, y, Z, v) ==
    Det([i \in 1..(Len(Z) + 1) |->
           IF i <= Len(Z) THEN Append([j \in 1..Len(Z) |-> A[Z[i]][Z[j]]], v[i])
           ELSE Append([j \in 1..Len(Z) |-> A[y][Z[j]]], 0)])

(* covariance of y and w given Z (a sequence of variables), and the common denominator *)
CondDen(S, Z) == Det(Sub(S, Z, Z))
CondCov(S, Z, y, w) == Det(Sub(S, Append(Z, y), Append(Z, w)))
Scaled(S, Z) ==  \* the conditional covariance matrix times its denominator
    [y \in 1..Len(S) |-> [w \in 1..Len(S) |-> CondCov(S, Z, y, w)]]

(* mean of y given Z = z *)
CondMean(M, S, Z, z, y) ==
    LET d == CondDen(S, Z)
        v == [k \in 1..Len(Z) |-> z[k] - M[Z[k]]]
    IN  <<M[y] * d - Bordered(S, y, Z, v), d>>

(* the same starting from a normal with fractional mean m/md and scaled covariance A *)
StepMean(m, md, A, Z, z, y, sign) ==
    LET a == Det(Sub(A, Z, Z))
        v == [k \in 1..Len(Z) |-> z[k] * md - m[Z[k]]]
    IN  <<m[y] * a - sign * Bordered(A, y, Z, v), a * md>>

RECURSIVE GcdP(_, _)
GcdP(a, b) == IF b = 0 THEN a ELSE GcdP(b, a % b)
EqF(f, g) == f[1] * g[2] = g[1] * f[2]
AbsG(x) == IF x < 0 THEN -x ELSE x
GcdG(a, b) == GcdP(AbsG(a), AbsG(b))
Reduce(f) == LET g == GcdG(AbsG(f[1]), f[2]) IN <<f[1] \div g, f[2] \div g>>

(* sign * floor(|n| 10^6 / d) *)
RECURSIVE Dig(_, _, _, _)
Dig(rem, d, k, acc) == IF k = 0 THEN acc
    ELSE Dig((rem * 10) % d, d, k - 1, acc * 10 + ((rem * 10) \div d))
Micro(f) == LET r == Reduce(f) a == AbsG(r[1]) q == Dig(a % r[2], r[2], 6, a \div r[2])
            IN  IF r[1] < 0 THEN -q ELSE q
NearF(obs, f) == AbsG(obs - Micro(f)) <= 3
=============================================================================
