-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Saved forms.  A network is seen as                                      *)
(*   [vars:  set of [id, name, vals (sequence), probs (sequence, 10^-8), exact (the same, every digit)],  *)
(*    edges: set of <<parent id, child id>>,                               *)
(*    par:   function (as set of <<id, <<parents in order>>>>)]            *)
(* Saving is a function of the network alone and leaves it as it is;       *)
(* loading inverts it.                                                     *)
(***************************************************************************)
EXTENDS BBN
Tol == 1
NearSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= Tol

VarOf(N, id) == CHOOSE v \in Range1(N.vars) : v.id = id
Ids(N) == {v.id : v \in Range1(N.vars)}
SameVars(A, B) ==
    /\ Len(A.vars) = Len(B.vars)
    /\ Ids(A) = Ids(B)
    /\ \A i \in Ids(A) : LET a == VarOf(A, i) b == VarOf(B, i) IN a.name = b.name /\ a.vals = b.vals
SameTables(A, B) ==
    /\ Ids(A) = Ids(B)
    /\ \A i \in Ids(A) : /\ NearSeq(VarOf(A, i).probs, VarOf(B, i).probs)
                         /\ VarOf(A, i).exact = VarOf(B, i).exact      \* to the last digit
SameEdges(A, B) == Len(A.edges) = Len(B.edges) /\ Range1(A.edges) = Range1(B.edges)
SameParents(A, B) == Len(A.par) = Len(B.par) /\ Range1(A.par) = Range1(B.par)

NetworkDiff(A, B) ==
    (IF SameVars(A, B) THEN {} ELSE {"variables"})
    \cup (IF SameTables(A, B) THEN {} ELSE {"tables"})
    \cup (IF SameEdges(A, B) THEN {} ELSE {"edges"})
    \cup (IF SameParents(A, B) THEN {} ELSE {"parent-order"})
SameNetwork(A, B) == NetworkDiff(A, B) = {}

(***************************************************************************)
(* Trees: [vars, cl: <<clusters>>, sp: <<[vs, l, r]>>] by identifiers.     *)
(***************************************************************************)
Cl(T) == {Range1(T.cl[k]) : k \in 1..Len(T.cl)}
Sp(T) == {[vs |-> Range1(T.sp[k].vs), e |-> {Range1(T.sp[k].l), Range1(T.sp[k].r)}] : k \in 1..Len(T.sp)}
Ed(T) == {[vs |-> Range1(T.ed[k].vs), e |-> {Range1(T.ed[k].l), Range1(T.ed[k].r)}] : k \in 1..Len(T.ed)}
TreeDiff(A, B) ==
    (IF Cl(A) = Cl(B) /\ Len(A.cl) = Len(B.cl) THEN {} ELSE {"clusters"})
    \cup (IF Sp(A) = Sp(B) /\ Len(A.sp) = Len(B.sp) THEN {} ELSE {"separators"})
    \cup (IF Ed(A) = Ed(B) /\ Len(A.ed) = Len(B.ed) THEN {} ELSE {"tree-edges"})
    \cup (IF SameVars(A, B) THEN {} ELSE {"variables"})
    \cup (IF SameTables(A, B) THEN {} ELSE {"tables"})

(***************************************************************************)
(* A description (C23): <<[name, states, parents, probs]>>                 *)
(***************************************************************************)
NameOf(N, id) == VarOf(N, id).name
ParOf(N, id) == LET p == CHOOSE q \in Range1(N.par) : q[1] = id IN p[2]
DescriptionDiff(D, N) ==
    LET names == {v.name : v \in Range1(N.vars)}
        once == Len(D) = Len(N.vars) /\ {D[k].name : k \in 1..Len(D)} = names
    IN  IF ~once THEN {"description-variables"}
        ELSE UNION { LET d == D[k]
                         v == CHOOSE x \in Range1(N.vars) : x.name = d.name
                     IN  (IF d.states = v.vals THEN {} ELSE {"description-states"})
                         \cup (IF d.parents = [j \in 1..Len(ParOf(N, v.id)) |-> NameOf(N, ParOf(N, v.id)[j])]
                               THEN {} ELSE {"description-parents"})
                         \cup (IF NearSeq(d.probs, v.probs) THEN {} ELSE {"description-probabilities"})
                     : k \in 1..Len(D) }
=============================================================================
