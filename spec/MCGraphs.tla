------------------------------- MODULE MCGraphs -------------------------------
(***************************************************************************)
(* All histories of additions and removals over a few nodes, per kind;     *)
(* every transition is printed for replay into the library.                *)
(***************************************************************************)
EXTENDS Graphs, IOUtils, Json
VARIABLE op
Kind == IOEnv.KIND
V == 1..(IF IOEnv.NODES = "4" THEN 4 ELSE 3)
WithCopy == IOEnv.COPY = "1"
Types == CASE Kind = "ug" -> {"U"} [] Kind = "graphd" -> {"D"} [] Kind = "graphu" -> {"U"} [] OTHER -> {"D", "U"}
RealKind == IF Kind \in {"graphd", "graphu"} THEN "graph" ELSE Kind

Do(o, A) == A /\ op' = o
MCInit == gs = [x \in {} |-> 0] /\ op = [op |-> "init"]
MCNext ==
    \/ DOMAIN gs = {} /\ Do([op |-> "new", s |-> 1, kind |-> RealKind], New(1, RealKind))
    \/ \E v \in V : Do([op |-> "node", s |-> 1, v |-> v], AddNode(1, v))
    \/ \E i, j \in V, t \in Types :
         Do([op |-> "edge", s |-> 1, i |-> i, j |-> j, t |-> t],
            Accept(1, i, j, t) \/ Refuse(1, i, j, t))
    \/ \E v \in V : Do([op |-> "remove", s |-> 1, v |-> v], DropNode(1, v))
MCSpec == MCInit /\ [][MCNext]_<<gs, op>>

\* per child, the parents in order; undirected edges as a set
Brief(g) == <<g.nodes, [v \in V |-> ParentsInOrder(g, v)], UndPairs(g)>>
View == [s \in DOMAIN gs |-> Brief(gs[s])]
Emit == PrintT("@EDGE " \o ToJson([f |-> ToString(View), o |-> op', g |-> ToString([s \in DOMAIN gs' |-> Brief(gs'[s])])]))
EmitIf == IOEnv.EMIT # "1" \/ Emit
OK == \A s \in DOMAIN gs : GraphOK(gs[s])

(* A removed node leaves nothing behind and nothing else changes. *)
RemovalLeavesNoTrace ==
    [][op'.op = "remove" =>
         LET g == gs[1] h == gs'[1] v == op'.v IN
         /\ v \notin h.nodes
         /\ \A e \in EdgeSet(h) : v \notin {e.i, e.j}
         /\ \A e \in EdgeSet(g) : v \notin {e.i, e.j} => e \in EdgeSet(h)
         /\ \A u \in h.nodes : ParentsInOrder(h, u) = SelectSeq(ParentsInOrder(g, u), LAMBDA x : x # v)]_<<gs, op>>
(* Additions never lose anything. *)
AdditionsOnlyAdd ==
    [][op'.op \in {"node", "edge"} =>
         /\ gs[1].nodes \subseteq gs'[1].nodes
         /\ IsPrefix(gs[1].edges, gs'[1].edges)]_<<gs, op>>
=============================================================================
