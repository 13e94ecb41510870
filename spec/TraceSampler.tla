----------------------------- MODULE TraceSampler -----------------------------
(***************************************************************************)
(* Recorded sampling calls.                                                *)
(*  op "draw":   net, ev, n, runs: <<<<sample>>, ...>> (same seed each),   *)
(*               before/after: the network, evb/eva: the caller's evidence *)
(*  op "count":  net, ev, n, cnt: <<<<assignment, count>>>>,               *)
(*               lag: per position <<<<v, w, count>>>>, sets: <<vs>>       *)
(***************************************************************************)
EXTENDS Sampler, TraceBase
VARIABLES tid, l, bad
E == Traces[tid].ev[l + 1]
TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}
         /\ snet = <<>> /\ ev = {} /\ part = <<>> /\ wt = 1 /\ wanted = 0 /\ got = <<>>

EvSet(e) == {<<e.ev[k][1], e.ev[k][2]>> : k \in 1..Len(e.ev)}

DrawClause(e) ==
    LET r == e.runs[1] IN
    If(Len(r) # e.n, "wrong-number-of-samples")
    \cup If(\E k \in 1..Len(r) : ~FullAssignment(e.net, r[k]), "incomplete-sample")
    \cup If(\E k \in 1..Len(r) : FullAssignment(e.net, r[k]) /\ ~Agrees(r[k], EvSet(e)), "sample-against-evidence")
    \cup If(\E k \in 1..Len(r) : FullAssignment(e.net, r[k]) /\ ~PositiveProb(e.net, r[k]), "impossible-sample")
    \cup If(\E k \in 1..Len(e.runs) : e.runs[k] # r, "not-reproducible")
    \cup If(e.before # e.after, "network-changed")
    \cup If(e.evb # e.eva, "evidence-changed")

LagOff(e, ws, Z, i) ==
    LET m == MargNum(e.net, ws, i)
        p4 == [v \in 1..e.net.card[i] |-> Scale8(m[v], Z) \div 10000]
        \* probability of a pair of successive values, in 10^-5
        p5(v, w) == (p4[v] * p4[w]) \div 1000
        c(v, w) == LET K == {k \in 1..Len(e.lag[i]) : e.lag[i][k][1] = v /\ e.lag[i][k][2] = w}
                   IN  IF K = {} THEN 0 ELSE e.lag[i][CHOOSE k \in K : TRUE][3]
    IN  \E v, w \in 1..e.net.card[i] : ~Plausible(e.n - 1, p5(v, w), c(v, w), 10)

CountClause(e) ==
    LET sup == SupportSeq(e.net)
        ws == SelectSeq(sup, LAMBDA s : Agrees(s[1], EvSet(e)))
        Z == SumSeq([k \in 1..Len(ws) |-> ws[k][2]])
        total == FoldLeft(LAMBDA acc, x : acc + x[2], 0, e.cnt)
        off(vs) == OffBy(e.n, ws, Z, e.cnt, vs, 6)
        singles == {<<i>> : i \in Nodes(e.net)}
        fams == {e.net.par[i] \o <<i>> : i \in Nodes(e.net)}
        pairs == {<<i, j>> : i \in Nodes(e.net), j \in Nodes(e.net)} \ {<<i, i>> : i \in Nodes(e.net)}
    IN  If(total # e.n, "wrong-number-of-samples")
        \cup If(\E vs \in singles : off(vs), "value-frequencies")
        \cup If(\E vs \in fams : off(vs), "family-frequencies")
        \cup If(\E vs \in pairs : vs[1] < vs[2] /\ off(vs), "pair-frequencies")
        \cup If(Len(ws) <= 150 /\ off([i \in 1..e.net.n |-> i]), "joint-frequencies")
        \cup If(\E i \in Nodes(e.net) : LagOff(e, ws, Z, i), "successive-samples-dependent")

Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup IF e.err # "" THEN {}
         ELSE CASE e.op = "draw" -> DrawClause(e)
                [] e.op = "count" -> CountClause(e)

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
    /\ UNCHANGED sampvars
TSpec == TInit /\ [][TNext]_<<tid, l, bad, sampvars>>
=============================================================================
