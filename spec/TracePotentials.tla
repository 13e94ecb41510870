---------------------------- MODULE TracePotentials ----------------------------
(***************************************************************************)
(* Recorded sequences of table operations.  After every operation all      *)
(* tables are observed: [k, ent: <<[a: <<value position per variable>>,    *)
(* x: value in units of 10^-8]>>], entries in the order listed, positions  *)
(* in the order of the table's variables, 0 for a value that is unknown    *)
(* or a variable that is missing; width is the number of variables an      *)
(* entry mentions.                                                         *)
(***************************************************************************)
EXTENDS Potentials, TraceBase
VARIABLES tid, l, bad
tvars == <<tabs, tid, l, bad>>
E == Traces[tid].ev[l + 1]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ tabs = <<>>

Rats(s) == [k \in 1..Len(s) |-> Rat(s[k][1], s[k][2])]
Step(e) ==
    CASE e.op = "build" -> Build(e.k, e.vs, e.card, Rats(e.vals))
      [] e.op = "ones" -> Ones(e.k, e.vs, e.card)
      [] e.op = "margin" -> Margin(e.k, e.k2, e.us)
      [] e.op = "times" -> Times(e.k, e.k2)
      [] e.op = "over" -> Over(e.k, e.k2, e.k3)
      [] e.op = "norm" -> Norm(e.k)
      [] e.op = "pass" -> Pass(e.x, e.s, e.y)
      [] e.op = "entry" -> Entry(e.k, e.a, Rat(e.v[1], e.v[2]))
      [] e.op = "dup" -> Dup(e.k, e.k2)
      [] OTHER -> UNCHANGED tabs

Targets(e) == CASE e.op \in {"build", "ones", "times", "norm", "entry"} -> {e.k}
                [] e.op \in {"margin", "dup"} -> {e.k2}
                [] e.op = "over" -> {e.k3}
                [] e.op = "pass" -> {e.s, e.y}
                [] OTHER -> {}

ObsClause(e, o) ==
    LET t == tabs'[o.k]
        as == Listing(t.card)
        shape == /\ Len(o.ent) = Len(as)
                 /\ \A j \in 1..Len(o.ent) : o.ent[j].w = Len(t.vs) /\ o.ent[j].a \in DOMAIN t.val
        wrong == \E j \in 1..Len(o.ent) :
                    /\ o.ent[j].a \in DOMAIN t.val
                    /\ LET r == t.val[o.ent[j].a] IN ~Close(o.ent[j].x, r[1], r[2], 2)
    IN  If(~shape \/ Cardinality({o.ent[j].a : j \in 1..Len(o.ent)}) # Len(as), "table-entries")
        \cup If(shape /\ [j \in 1..Len(o.ent) |-> o.ent[j].a] # as, "table-order")
        \cup If(wrong, IF o.k \in Targets(e) THEN "table-values" ELSE "other-table-changed")

Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup UNION {ObsClause(e, e.obs[k]) : k \in 1..Len(e.obs)}
    \cup If(e.err = "" /\ {e.obs[k].k : k \in 1..Len(e.obs)} # DOMAIN tabs', "tables-present")
    \cup IF e.op = "match" /\ e.err = ""
         THEN LET M == Matching(tabs[e.k], e.part) IN
              If(Range1(e.got) # M \/ Len(e.got) # Cardinality(M), "matching-entries")
         ELSE {}
    \cup IF e.op = "dict" /\ e.err = ""
         THEN If(\/ {e.got[j].a : j \in 1..Len(e.got)} # DOMAIN tabs[e.k].val
                 \/ \E j \in 1..Len(e.got) : e.got[j].a \in DOMAIN tabs[e.k].val
                       /\ LET r == tabs[e.k].val[e.got[j].a] IN ~Close(e.got[j].x, r[1], r[2], 2), "dictionary")
         ELSE {}

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ IF E.op = "broken" THEN UNCHANGED tabs ELSE Step(E)
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
