-------------------------------- MODULE Graphs --------------------------------
(***************************************************************************)
(* Graphs as users build them: five kinds, edges admitted one at a time.   *)
(*   "graph", "ug"  plain graphs                                           *)
(*   "dag", "bbn"   directed acyclic graphs                                *)
(*   "pdag"         partially directed graphs without directed cycles      *)
(* A graph is [kind, nodes (set), edges (sequence of [i, j, t])] with      *)
(* t = "D" (i -> j) or "U" (i -- j), in order of acceptance.               *)
(***************************************************************************)
EXTENDS BBN

VARIABLE gs        \* graph slot -> graph

EdgeSet(g) == Range1(g.edges)
DirPairs(g) == {<<e.i, e.j>> : e \in {x \in EdgeSet(g) : x.t = "D"}}
UndPairs(g) == {{e.i, e.j} : e \in {x \in EdgeSet(g) : x.t = "U"}}
Linked(g, i, j) == \E e \in EdgeSet(g) : {e.i, e.j} = {i, j}

RECURSIVE Reach(_, _, _)
Reach(D, seen, frontier) ==
    IF frontier = {} THEN seen
    ELSE LET nxt == {p[2] : p \in {q \in D : q[1] \in frontier}} \ seen
         IN  Reach(D, seen \cup nxt, nxt)
(* nodes reachable from i by at least one arc *)
Below(D, i) == LET f == {p[2] : p \in {q \in D : q[1] = i}} IN Reach(D, f, f)
Acyclic(D) == \A p \in D : p[1] \notin Below(D, p[1])

(* What adding edge <<i, j, t>> must lead to: "yes", "no", or "either" where
   the library may decide (an undirected edge along a directed path in a
   partially directed graph; directed and undirected edges between the same
   nodes of a plain graph). *)
Admission(g, i, j, t) ==
    IF i = j THEN "no"
    ELSE CASE g.kind \in {"dag", "bbn"} ->
                IF t = "D" /\ ~Linked(g, i, j) /\ i \notin Below(DirPairs(g), j) THEN "yes" ELSE "no"
           [] g.kind = "pdag" ->
                IF Linked(g, i, j) THEN "no"
                ELSE IF t = "D" THEN IF i \in Below(DirPairs(g), j) THEN "no" ELSE "yes"
                ELSE IF i \in Below(DirPairs(g), j) \/ j \in Below(DirPairs(g), i) THEN "either" ELSE "yes"
           [] OTHER ->
                IF t = "D"
                THEN IF <<i, j>> \in DirPairs(g) THEN "no"
                     ELSE IF {i, j} \in UndPairs(g) THEN "either" ELSE "yes"
                ELSE IF {i, j} \in UndPairs(g) THEN "no"
                     ELSE IF Linked(g, i, j) THEN "either" ELSE "yes"

Empty(kind) == [kind |-> kind, nodes |-> {}, edges |-> <<>>]

SetG(s, g) == gs' = [x \in DOMAIN gs \cup {s} |-> IF x = s THEN g ELSE gs[x]]

New(s, kind) == SetG(s, Empty(kind))
AddNode(s, v) == s \in DOMAIN gs /\ SetG(s, [gs[s] EXCEPT !.nodes = @ \cup {v}])

WithEdge(g, i, j, t) ==
    [g EXCEPT !.nodes = @ \cup {i, j}, !.edges = Append(@, [i |-> i, j |-> j, t |-> t])]
Accept(s, i, j, t) ==
    /\ s \in DOMAIN gs
    /\ Admission(gs[s], i, j, t) \in {"yes", "either"}
    /\ SetG(s, WithEdge(gs[s], i, j, t))
(* the end points of a refused edge are still nodes of the graph *)
Refuse(s, i, j, t) ==
    /\ s \in DOMAIN gs
    /\ Admission(gs[s], i, j, t) \in {"no", "either"}
    /\ SetG(s, [gs[s] EXCEPT !.nodes = @ \cup {i, j}])

Without(g, v) ==
    [g EXCEPT !.nodes = @ \ {v}, !.edges = SelectSeq(@, LAMBDA e : e.i # v /\ e.j # v)]
DropNode(s, v) == s \in DOMAIN gs /\ SetG(s, Without(gs[s], v))

CopyG(s, s2) == s \in DOMAIN gs /\ SetG(s2, gs[s])

(***************************************************************************)
(* Observables                                                             *)
(***************************************************************************)
Neighbours(g, v) == {x \in g.nodes : Linked(g, x, v)}
DirParents(g, v) == {p[1] : p \in {q \in DirPairs(g) : q[2] = v}}
DirChildren(g, v) == {p[2] : p \in {q \in DirPairs(g) : q[1] = v}}
UndNeighbours(g, v) == {x \in g.nodes : {x, v} \in UndPairs(g)}
ParentsInOrder(g, v) ==
    LET into == SelectSeq(g.edges, LAMBDA e : e.t = "D" /\ e.j = v)
    IN  [k \in 1..Len(into) |-> into[k].i]

GraphOK(g) ==
    /\ \A e \in EdgeSet(g) : e.i # e.j /\ {e.i, e.j} \subseteq g.nodes
    /\ Cardinality(EdgeSet(g)) = Len(g.edges)
    /\ g.kind \in {"dag", "bbn"} => UndPairs(g) = {}
    /\ g.kind \in {"dag", "bbn", "pdag"} =>
         /\ Acyclic(DirPairs(g))
         /\ \A a, b \in 1..Len(g.edges) : a # b =>
               {g.edges[a].i, g.edges[a].j} # {g.edges[b].i, g.edges[b].j}
=============================================================================
