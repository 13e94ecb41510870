---------------------------- MODULE TraceVariants ----------------------------
(***************************************************************************)
(* The same network told in different ways.  The first event of a trace is *)
(* the reference [net, reads]; the others are variants [net, vp, reads],   *)
(* vp[i][k] = which value of the reference the variant's k-th value is.    *)
(* reads: after each step of the same evidence history, per position, per  *)
(* value, the posterior (10^-8).  The specification first makes sure that  *)
(* the variant really is the same network told differently.                *)
(***************************************************************************)
EXTENDS BBN, TraceBase
VARIABLES ref, tid, l, bad
tvars == <<ref, tid, l, bad>>
E == Traces[tid].ev[l + 1]
Tol == 2
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ ref = <<>>

(* the table entry of position i for assignment a (reference values) *)
Entry(net, i, a) == net.cpt[i][1 + FoldLeft(LAMBDA acc, p : acc * net.card[p] + (a[p] - 1), 0, net.par[i])][a[i]]
FamAssign(net, i) == {a \in [Family(net, i) -> 1..FoldSet(LAMBDA p, m : Max2(m, net.card[p]), 1, Family(net, i))] :
                        \A p \in Family(net, i) : a[p] <= net.card[p]}
SameNetwork(A, B, vp) ==
    /\ A.n = B.n /\ A.card = B.card /\ A.den = B.den
    /\ \A i \in 1..A.n :
         /\ Parents(A, i) = Parents(B, i) /\ Len(A.par[i]) = Len(B.par[i])
         /\ Range1(vp[i]) = 1..A.card[i]
         /\ \A b \in FamAssign(B, i) :
              Entry(B, i, b) = Entry(A, i, [p \in DOMAIN b |-> vp[p][b[p]]])

Agree(a, b, vp) ==
    /\ Len(a) = Len(b)
    /\ \A s \in 1..Len(a) :
         /\ Len(a[s]) = Len(b[s])
         /\ \A i \in 1..Len(a[s]) :
              /\ Len(a[s][i]) = Len(b[s][i])
              /\ \A k \in 1..Len(b[s][i]) : Abs(b[s][i][k] - a[s][i][vp[i][k]]) <= Tol

Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup IF e.err # "" \/ l = 0 THEN {}
         ELSE IF ~SameNetwork(ref.net, e.net, e.vp)
              THEN IF Assert(FALSE, "a variant is not the same network") THEN {} ELSE {}
              ELSE If(ref.reads # <<>> /\ ~Agree(ref.reads, e.reads, e.vp), "depends-on-" \o e.what)

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ ref' = IF l = 0 THEN [net |-> E.net, reads |-> E.reads] ELSE ref
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
