------------------------------- MODULE TraceAce -------------------------------
(***************************************************************************)
(* Recorded effects: net (before), pairs of [x, y, w, eff: <<[v, p]>>].    *)
(***************************************************************************)
EXTENDS Ace, TraceBase
VARIABLES cnet, tid, l, bad
E == Traces[tid].ev[l + 1]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ cnet = <<>>
Tol == 5
Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup IF e.err # "" \/ e.op # "ace" THEN {}
         ELSE If({e.eff[k][1] : k \in 1..Len(e.eff)} # 1..cnet.card[e.x] \/ Len(e.eff) # cnet.card[e.x],
                 "effects-not-for-every-value")
              \cup If(\E k \in 1..Len(e.eff) : e.eff[k][1] # 0 /\
                        Abs(e.eff[k][2] - Interventional(cnet, e.x, e.eff[k][1], e.y, e.w)) > Tol,
                      "effect")
              \cup If(e.before # e.after, "network-changed")
              \cup IF Positive(cnet, e.x) THEN {} ELSE IF Assert(FALSE, "no support") THEN {} ELSE {}
TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ cnet' = IF E.op = "net" THEN E.net ELSE cnet
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_<<tid, l, bad, cnet>>
=============================================================================
