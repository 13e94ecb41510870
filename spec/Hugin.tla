-------------------------------- MODULE Hugin --------------------------------
(***************************************************************************)
(* Message passing on any compiled forest, in any order the protocol       *)
(* allows: a cluster may send to a neighbour once it has received from all *)
(* its other neighbours.  (The library's collect-then-distribute pass from *)
(* the first cluster of each tree is one such order.)                      *)
(*                                                                         *)
(* Tables map assignments of the cluster's positions to rationals <<n, d>>.*)
(* Evidence is entered on calibrated tables either by multiplying the new  *)
(* likelihood in (allowed where there was none before) or by starting over *)
(* from the network's own tables.                                          *)
(***************************************************************************)
EXTENDS Compile, Evidence, Rational

VARIABLES hnet,     \* the network
          home,     \* position -> cluster its family table is multiplied into
          ctab,     \* cluster -> table
          stab,     \* separator -> table
          sent,     \* messages passed since the last change: <<separator, from>>
          lik,      \* likelihoods in force
          calm      \* number of evidence changes made
hvars == <<hnet, home, ctab, stab, sent, lik, calm>>

Assign(net, S) == {a \in [S -> 1..FoldSet(LAMBDA i, m : Max2(m, net.card[i]), 1, S)] :
                     \A i \in S : a[i] <= net.card[i]}
Restr(a, S) == [i \in S |-> a[i]]
Marg(tab, S) ==
    LET keys == {Restr(a, S) : a \in DOMAIN tab} IN
    [k \in keys |-> FoldSet(LAMBDA a, acc : RAdd(acc, tab[a]), <<0, 1>>,
                            {a \in DOMAIN tab : Restr(a, S) = k})]

FamilyEntry(net, i, a) ==
    LET row == 1 + FoldLeft(LAMBDA acc, p : acc * net.card[p] + (a[p] - 1), 0, net.par[i])
    IN  Rat(net.cpt[i][row][a[i]], net.den[i])
LikEntry(lk, i, a) == Rat(lk[i][a[i]], One)

StartTable(net, hm, lk, c) ==
    LET mine == {i \in Nodes(net) : hm[i] = c} IN
    [a \in Assign(net, c) |->
        FoldSet(LAMBDA i, acc : RMul(acc, RMul(FamilyEntry(net, i, a), LikEntry(lk, i, a))), <<1, 1>>, mine)]
UnitTable(net, S) == [a \in Assign(net, S) |-> <<1, 1>>]

Idle ==
    /\ hnet = <<>> /\ home = <<>> /\ ctab = <<>> /\ stab = <<>> /\ sent = {} /\ lik = <<>> /\ calm = 0

(* Every family and its evidence go into one cluster that holds it. *)
Load(net) ==
    /\ phase = "done" /\ hnet = <<>>
    /\ hnet' = net
    /\ lik' = NoEvidence(net)
    /\ \E hm \in [Nodes(net) -> forest.cl] :
         /\ \A i \in Nodes(net) : Family(net, i) \subseteq hm[i]
         /\ home' = hm
         /\ ctab' = [c \in forest.cl |-> StartTable(net, hm, NoEvidence(net), c)]
    /\ stab' = [s \in forest.sp |-> UnitTable(net, s.vs)]
    /\ sent' = {} /\ calm' = 0
    /\ UNCHANGED cvars

Ends(s) == {s.a, s.b}
Other(s, c) == IF s.a = c THEN s.b ELSE s.a
MaySend(s, c) ==
    /\ <<s, c>> \notin sent
    /\ \A r \in forest.sp : r # s /\ c \in Ends(r) => <<r, Other(r, c)>> \in sent
Send(s, c) ==
    /\ hnet # <<>> /\ s \in forest.sp /\ c \in Ends(s) /\ MaySend(s, c)
    /\ LET new == Marg(ctab[c], s.vs)
           y == Other(s, c)
           old == stab[s]
       IN  /\ stab' = [stab EXCEPT ![s] = new]
           /\ ctab' = [ctab EXCEPT ![y] = [a \in DOMAIN ctab[y] |->
                          LET k == Restr(a, s.vs) IN RMul(ctab[y][a], RDiv(new[k], old[k]))]]
    /\ sent' = sent \cup {<<s, c>>}
    /\ UNCHANGED <<hnet, home, lik, calm, cvars>>

Calibrated == hnet # <<>> /\ Cardinality(sent) = 2 * Cardinality(forest.sp)

Incremental(i, l) ==
    /\ Calibrated
    /\ lik' = [lik EXCEPT ![i] = l]
    /\ ctab' = [ctab EXCEPT ![home[i]] = [a \in DOMAIN @ |-> RMul(@[a], Rat(l[a[i]], One))]]
    /\ sent' = {} /\ calm' = calm + 1
    /\ UNCHANGED <<hnet, home, stab, cvars>>
Restart(i, l) ==
    /\ Calibrated
    /\ lik' = [lik EXCEPT ![i] = l]
    /\ ctab' = [c \in forest.cl |-> StartTable(hnet, home, lik', c)]
    /\ stab' = [s \in forest.sp |-> UnitTable(hnet, s.vs)]
    /\ sent' = {} /\ calm' = calm + 1
    /\ UNCHANGED <<hnet, home, cvars>>

(* The joint of the positions S with all evidence in the component of S. *)
ExactTable(S) ==
    LET C == Component(hnet, CHOOSE i \in S : TRUE)
        full == [a \in Assign(hnet, C) |->
                   FoldSet(LAMBDA i, acc : RMul(acc, RMul(FamilyEntry(hnet, i, a), LikEntry(lik, i, a))), <<1, 1>>, C)]
    IN  Marg(full, S)
TablesExact ==
    Calibrated =>
      /\ \A c \in forest.cl : ctab[c] = ExactTable(c)
      /\ \A s \in forest.sp : stab[s] = ExactTable(s.vs)
=============================================================================
