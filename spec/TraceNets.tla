------------------------------ MODULE TraceNets ------------------------------
(***************************************************************************)
(* Recorded constructions: networks learned from data, imported, or        *)
(* generated and converted.                                                *)
(***************************************************************************)
EXTENDS Nets, Learn, TraceBase
VARIABLES tid, l, bad
E == Traces[tid].ev[l + 1]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}

Prefix(p, S) == {p \o c : c \in S}
PostBad(net, post) ==
    LET ws == SupportSeq(net) IN
    \E i \in 1..net.n : LET p == Post8(net, ws, i) IN
        Len(post[i]) # net.card[i] \/ \E v \in 1..net.card[i] : Abs(post[i][v] - p[v]) > 5

(* ------------------------------------------------------------------ learn *)
LearnedView(e) ==
    [vars |-> [c \in 1..Len(e.card) |->
        LET rows == RowsL(e.data, e.card, c, e.par[c]) IN
        [name |-> e.names[c], id |-> c, vals |-> [v \in 1..e.card[c] |-> v],
         par |-> [k \in 1..Len(e.par[c]) |-> e.names[e.par[c][k]]],
         rows |-> [k \in 1..Len(rows) |-> LET z == SumSeq(rows[k]) IN [v \in 1..e.card[c] |-> Scale8(rows[k][v], z)]]]],
     edges |-> FlattenSeq([c \in 1..Len(e.card) |-> [k \in 1..Len(e.par[c]) |-> <<e.names[e.par[c][k]], e.names[c]>>]])]
LearnBad(e) ==
    NetsDiff(LearnedView(e), e.got)
    \cup If(~DistinctIds(e.got), "identifiers")
    \cup If(~e.same, "source-changed")
    \cup If(e.post # <<>> /\ PostBad(LearnedNet(e.data, e.card, e.par, e.top), e.post), "distribution")

(* ----------------------------------------------------------------- import *)
ImportBad(e) ==
    NetsDiff(e.src, e.got) \cup IdsDiff(e.src, e.got)
    \cup If(~e.same, "source-changed")
    \cup If(e.post # <<>> /\ PostBad(e.net, e.post), "distribution")

(* --------------------------------------------------------------- generate *)
StructureBad(n, kind, g) ==
    LET V == Range1(g.nodes) R == Range1(g.edges) IN
    If(V # 0..(n - 1) \/ Len(g.nodes) # n, "generated-variables")
    \cup If(Cardinality(R) # Len(g.edges) \/ \E a \in R : a[1] \notin V \/ a[2] \notin V \/ a[1] = a[2], "generated-edges")
    \cup If(~AcyclicN(R), "generated-cycle")
    \cup If(V # {} /\ ~ConnectedN(V, R), "generated-disconnected")
    \cup If(kind = "singly" /\ ~SinglyN(V, R), "generated-loops")
ParamsBad(g, N, maxv) ==
    If(~WellShaped(N), "generated-shape")
    \cup If(~Distributions(N), "generated-probabilities")
    \cup If(\E v \in Range1(N.vars) : Len(v.vals) < 2 \/ Len(v.vals) > Max2(2, maxv), "generated-cardinality")
GenerateBad(e) ==
    LET B == StructureBad(e.n, e.kind, e.g) \cup ParamsBad(e.g, e.src, e.maxv) IN
    B \cup IF B # {} THEN B
      ELSE Prefix("inference-", NetsDiff(e.src, e.bbn)) \cup Prefix("inference-", IdsDiff(e.src, e.bbn))
           \cup If(Range1(e.draw.nodes) # Range1(e.g.nodes) \/ Len(e.draw.nodes) # e.n, "drawing-variables")
           \cup If(Range1(e.draw.edges) # Range1(e.g.edges) \/ Len(e.draw.edges) # Len(e.g.edges), "drawing-edges")
           \cup UNION {LET t == e.texts[k] IN
                 If(Range1(t.nodes) # Range1(e.g.nodes) \/ Len(t.nodes) # e.n, "text-variables")
                 \cup If(Range1(t.edges) # Range1(e.g.edges) \/ Len(t.edges) # Len(e.g.edges), "text-edges")
                 \cup If({t.tab[j].node : j \in 1..Len(t.tab)} # Range1(e.g.nodes) \/ Len(t.tab) # e.n, "text-tables")
                 \cup If(\E j \in 1..Len(t.tab) : \E s \in Range1(e.src.vars) :
                           s.id = t.tab[j].node /\ (\/ t.tab[j].shape # <<Len(s.rows), Len(s.vals)>>
                                                    \/ ~NearRow(t.tab[j].flat, FlattenSeq(s.rows))), "text-tables")
                 : k \in 1..Len(e.texts)}
           \cup If(~e.same, "source-changed")
FileBad(e) ==
    LET g == [nodes |-> [k \in 1..Len(e.got.vars) |-> e.got.vars[k].id],
              edges |-> LET idOf(x) == VarN(e.got, x).id IN
                        [k \in 1..Len(e.got.edges) |-> <<idOf(e.got.edges[k][1]), idOf(e.got.edges[k][2])>>]]
    IN  IF ~WellShaped(e.got) THEN {"file-shape"}
        ELSE Prefix("file-", StructureBad(e.n, e.kind, g)) \cup Prefix("file-", ParamsBad(g, e.got, e.maxv))
             \cup Prefix("file-", NetsDiff(e.src, e.got))

Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup IF e.err # "" THEN {}
         ELSE CASE e.op = "learn" -> LearnBad(e)
                [] e.op = "import" -> ImportBad(e)
                [] e.op = "generate" -> GenerateBad(e)
                [] e.op = "file" -> FileBad(e)
                [] OTHER -> {}
TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_<<tid, l, bad>>
=============================================================================
