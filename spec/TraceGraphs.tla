------------------------------ MODULE TraceGraphs ------------------------------
(***************************************************************************)
(* Recorded histories on real graph objects, checked against Graphs.       *)
(* Each event shows the complete projection of every live graph:           *)
(*   [s, nodes, edges, nb, pa, ch, ex, out, dx, ord, nx, doc]              *)
(***************************************************************************)
EXTENDS Graphs, TraceBase
VARIABLES tid, l, bad
tvars == <<gs, tid, l, bad>>
E == Traces[tid].ev[l + 1]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ gs = [x \in {} |-> 0]

ObsOf(e, s) == LET k == CHOOSE k \in 1..Len(e.obs) : e.obs[k].s = s IN e.obs[k]
HasObs(e, s) == \E k \in 1..Len(e.obs) : e.obs[k].s = s
Same(a, b) == a.t = b.t /\ ((a.i = b.i /\ a.j = b.j) \/ (a.t = "U" /\ a.i = b.j /\ a.j = b.i))
Shows(o, i, j, t) == \E k \in 1..Len(o.edges) : Same(o.edges[k], [i |-> i, j |-> j, t |-> t])
CountShown(o, i, j, t) == Cardinality({k \in 1..Len(o.edges) : Same(o.edges[k], [i |-> i, j |-> j, t |-> t])})

(* what the library did with the edge, and what it had to do *)
Did(e) == IF HasObs(e, e.s) /\ Shows(ObsOf(e, e.s), e.i, e.j, e.t)
             /\ ~(\E x \in EdgeSet(gs[e.s]) : Same(x, [i |-> e.i, j |-> e.j, t |-> e.t]))
          THEN "yes" ELSE "no"
Outcome(e) == LET a == Admission(gs[e.s], e.i, e.j, e.t) IN IF a = "either" THEN Did(e) ELSE a

Act(e) ==
    CASE e.op = "new"    -> New(e.s, e.kind)
      [] e.op = "node"   -> AddNode(e.s, e.v)
      [] e.op = "edge"   -> IF Outcome(e) = "yes" THEN Accept(e.s, e.i, e.j, e.t) ELSE Refuse(e.s, e.i, e.j, e.t)
      [] e.op = "remove" -> DropNode(e.s, e.v)
      [] e.op = "copy"   -> CopyG(e.s, e.s2)
      [] e.op = "broken" -> UNCHANGED gs
      [] e.op = "query"  -> UNCHANGED gs

EdgeClause(e) ==
    IF e.op # "edge" \/ ~HasObs(e, e.s) THEN {}
    ELSE LET a == Admission(gs[e.s], e.i, e.j, e.t) IN
         If(a = "yes" /\ Did(e) = "no", "edge-wrongly-refused")
         \cup If(a = "no" /\ Did(e) = "yes", "edge-wrongly-accepted")

Sq(o, f, v) == LET r == o[f] IN Range1(r[CHOOSE k \in 1..Len(o.nodes) : o.nodes[k] = v])

ObsClause(e, o) ==
    IF o.s \notin DOMAIN gs' THEN {"unknown-slot"}
    ELSE LET g == gs'[o.s]
             N == Range1(o.nodes)
             okNodes == N = g.nodes /\ Len(o.nodes) = Cardinality(N)
             okEdges == /\ Len(o.edges) = Len(g.edges)
                        /\ \A x \in EdgeSet(g) : CountShown(o, x.i, x.j, x.t) = 1
             touched == "s" \in DOMAIN e /\ (e.s = o.s \/ ("s2" \in DOMAIN e /\ e.s2 = o.s))
             c ==
               If(~okNodes, "nodes")
               \cup If(~okEdges, "edge-list")
               \cup If(okNodes /\ \E v \in N : Sq(o, "nb", v) # Neighbours(g, v), "neighbours")
               \cup If(okNodes /\ g.kind \in {"dag", "bbn"} /\
                       \E v \in N : Sq(o, "pa", v) # DirParents(g, v), "parents")
               \cup If(okNodes /\ g.kind \in {"dag", "bbn"} /\
                       \E v \in N : Sq(o, "ch", v) # DirChildren(g, v), "children")
               \cup If(okNodes /\ g.kind = "pdag" /\
                       \E v \in N : ~(/\ DirParents(g, v) \subseteq Sq(o, "pa", v)
                                      /\ Sq(o, "pa", v) \subseteq DirParents(g, v) \cup UndNeighbours(g, v)
                                      /\ DirChildren(g, v) \subseteq Sq(o, "out", v)
                                      /\ Sq(o, "out", v) \subseteq DirChildren(g, v) \cup UndNeighbours(g, v)),
                       "parents")
               \cup If(\E k \in 1..Len(o.ex) :
                         LET q == o.ex[k]
                             want == IF g.kind \in {"dag", "bbn"} THEN <<q[1], q[2]>> \in DirPairs(g)
                                     ELSE Linked(g, q[1], q[2])
                         IN  (q[3] = 1) # want, "edge-query")
               \cup If(\E k \in 1..Len(o.dx) :
                         LET q == o.dx[k] IN (q[3] = 1) # (<<q[1], q[2]>> \in DirPairs(g)), "directed-edge-query")
               \cup If(okNodes /\ g.kind = "bbn" /\
                       \E k \in 1..Len(o.nodes) : o.ord[k] # ParentsInOrder(g, o.nodes[k]), "parent-order")
               \cup If(g.kind = "bbn" /\
                       \/ Range1(o.doc.n) # g.nodes
                       \/ Range1(o.doc.e) # DirPairs(g) \/ Len(o.doc.e) # Len(g.edges), "saved-form")
               \cup If(g.kind \in {"dag", "bbn"} /\
                       \/ Range1(o.nx.n) # g.nodes
                       \/ Range1(o.nx.e) # DirPairs(g) \/ Len(o.nx.e) # Len(g.edges)
                       \/ ~o.nx.lab, "conversion")
         IN  c \cup If(c # {} /\ ~touched, "untouched-graph-changed")
               \cup If(c # {} /\ e.op = "remove", "removal")

Verdict(e) ==
    If(e.err # "", "unexpected-error") \cup EdgeClause(e)
    \cup UNION {ObsClause(e, e.obs[k]) : k \in 1..Len(e.obs)}

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ Act(E)
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
