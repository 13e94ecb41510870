------------------------------ MODULE TraceCodec ------------------------------
(***************************************************************************)
(* Recorded savings and loadings.  cur is the network as last seen in      *)
(* memory; docs the saved forms, by kind.                                  *)
(***************************************************************************)
EXTENDS Codec, TraceBase
VARIABLES cur, docs, tid, l, bad
tvars == <<cur, docs, tid, l, bad>>
E == Traces[tid].ev[l + 1]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ cur = <<>> /\ docs = <<>>

(* cur[s]: what slot s must look like from now on *)
Act(e) ==
    CASE e.op = "net"    -> cur' = Put(cur, e.s, e.intent) /\ docs' = docs
      [] e.op = "save"   -> cur' = cur /\ docs' = Put(docs, e.d, [how |-> e.how, s |-> e.s, net |-> cur[e.s], doc |-> e.doc])
      [] e.op = "load"   -> cur' = Put(cur, e.s, docs[e.d].net) /\ docs' = docs
      [] e.op = "change" -> cur' = Put(cur, e.s, e.intent) /\ docs' = docs
      [] OTHER           -> UNCHANGED <<cur, docs>>

Loss == [variables |-> "variables-lost", tables |-> "tables-lost", edges |-> "edges-lost"] @@ ("parent-order" :> "parent-order-lost")
Seen(e) == IF ~Has(e, "seen") THEN {}
           ELSE UNION {LET x == e.seen[k] IN
                       IF Has(e, "s") /\ x.s = e.s /\ e.op = "load"
                       THEN {Loss[c] : c \in NetworkDiff(x.net, cur'[x.s])}
                       ELSE If(~SameNetwork(x.net, cur'[x.s]), "network-in-memory-changed")
                       : k \in 1..Len(e.seen)}

(* two savings of the same network by the same method say the same *)
Again(e) == IF e.op # "save" THEN {}
            ELSE If(\E d \in DOMAIN docs : /\ docs[d].how = e.how /\ SameNetwork(docs[d].net, cur[e.s])
                                           /\ docs[d].doc # e.doc,
                    "saved-again-differs")
Tree(e) == IF e.op # "tree" THEN {} ELSE {"tree-" \o c : c \in TreeDiff(e.after, e.before)}
           \cup If(SameTables(e.after, cur[e.s]) = FALSE, "tree-tables-not-those-of-the-network")
Describe(e) == IF e.op # "describe" THEN {} ELSE DescriptionDiff(e.desc, cur[e.s])

Verdict(e) == If(e.err # "", "unexpected-error") \cup
              IF e.err # "" THEN {} ELSE Seen(e) \cup Again(e) \cup Tree(e) \cup Describe(e)

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ IF E.err # "" THEN UNCHANGED <<cur, docs>> ELSE Act(E)
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
