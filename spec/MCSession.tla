------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Bounded instances of Session for exhaustive checking, and the source of *)
(* the behaviours that are replayed into the library: every transition is  *)
(* printed once as JSON (EMIT=1) with the operation in driver format.      *)
(*                                                                         *)
(* MODEL=evidence : one tree of a two-variable network, every evidence     *)
(*                  type, soft values in steps of one half, all toggles    *)
(* MODEL=slots    : two tree slots, compile / copy / reapply / reload /    *)
(*                  evidence interleaved, two versions of the tables       *)
(***************************************************************************)
EXTENDS Session, IOUtils, Json

VARIABLE op      \* the operation that led here (hidden by VIEW)
mcvars == <<nets, trees, op>>

Model == IOEnv.MODEL
Emitting == IOEnv.EMIT = "1"

\* a -> b ; b is impossible at 2 when a = 1
NetAB == [n |-> 2, card |-> <<2, 2>>, par |-> <<<<>>, <<1>>>>, den |-> <<4, 4>>,
          cpt |-> <<<<<<1, 3>>>>, <<<<4, 0>>, <<1, 3>>>>>>, top |-> <<1, 2>>]
\* b <- a with a three-valued, plus an island c
NetABC == [n |-> 3, card |-> <<3, 2, 2>>, par |-> <<<<>>, <<1>>, <<>>>>, den |-> <<4, 4, 5>>,
          cpt |-> <<<<<<1, 2, 1>>>>, <<<<4, 0>>, <<1, 3>>, <<2, 2>>>>, <<<<2, 3>>>>>>, top |-> <<1, 2, 3>>]
Alt == <<<<<<3, 1>>>>, <<>>>>       \* replacement table for a

BaseNet == IF Model = "island" THEN NetABC ELSE NetAB
Slots == IF Model = "slots" THEN {1, 2} ELSE {1}
Quarters == {0, 2, 4}

EvAll(net) ==
    UNION {
      LET c == net.card[i] IN
      {[node |-> i, type |-> "V", vals |-> [v \in 1..c |-> <<v, q[v]>>]] : q \in [1..c -> Quarters]}
      \cup {[node |-> i, type |-> "F", vals |-> [v \in 1..c |-> <<v, q[v]>>]] : q \in [1..c -> {0, 4}]}
      \cup {[node |-> i, type |-> "O", vals |-> <<<<v, 4>>>>] : v \in 1..c}
      \cup {[node |-> i, type |-> "O", vals |-> <<<<2, 1>>, <<1, 1>>>>]}
      \cup {[node |-> i, type |-> "U", vals |-> <<>>]}
      : i \in Nodes(net)}
EvFew(net) ==
    {[node |-> i, type |-> "O", vals |-> <<<<v, 4>>>>] : i \in Nodes(net), v \in 1..2}
EvIsland(net) ==
    UNION {
      LET c == net.card[i] IN
      {[node |-> i, type |-> "O", vals |-> <<<<v, 4>>>>] : v \in 1..c}
      \cup {[node |-> i, type |-> "F", vals |-> [k \in 1..2 |-> <<k, 4>>]],
            [node |-> i, type |-> "V", vals |-> [k \in 1..2 |-> <<3 - k, 2 * k>>]]}
      : i \in Nodes(net)}
Evs(net) == IF Model = "slots" THEN EvFew(net) ELSE IF Model = "island" THEN EvIsland(net) ELSE EvAll(net)
BadEvs == {[node |-> 1, type |-> "V", vals |-> <<<<1, 2>>, <<0, 4>>>>],
           [node |-> 0, type |-> "O", vals |-> <<<<1, 4>>>>]}
Good1(net) == [node |-> 2, type |-> "O", vals |-> <<<<1, 4>>>>]

MCInit == SessInit /\ op = [op |-> "init"]

Do(o, A) == A /\ op' = o

MCNext ==
    \/ /\ nets = <<>>
       /\ Do([op |-> "net", s |-> 1], Build(1, BaseNet))
    \/ /\ nets # <<>>
       /\ \/ \E t \in Slots : Do([op |-> "compile", t |-> t, s |-> 1], Compile(t, 1))
          \/ \E t \in Slots \cap DOMAIN trees :
               \/ \E ev \in Evs(trees[t].net) :
                    Do([op |-> "update", t |-> t, evs |-> <<ev>>], Update(t, <<ev>>))
               \/ \E ev \in {x \in Evs(trees[t].net) : x.type \in {"O", "V"}} :
                    Do([op |-> "toggle", t |-> t, evs |-> <<ev>>], Toggle(t, ev))
               \/ \E i \in Nodes(trees[t].net) :
                    Do([op |-> "retract", t |-> t, nodes |-> <<i>>], Retract(t, <<i>>))
               \/ Do([op |-> "clear", t |-> t], RetractAll(t))
               \/ \E bev \in BadEvs :
                    Do([op |-> "update", t |-> t, evs |-> <<Good1(trees[t].net), bev>>],
                       Refused(t, <<Good1(trees[t].net), bev>>))
          \/ /\ Model = "slots"
             /\ \E t \in DOMAIN trees, t2 \in Slots :
                  \/ Do([op |-> "copy", t |-> t, t2 |-> t2], Copy(t, t2))
                  \/ Do([op |-> "reload", t |-> t, t2 |-> t2, s |-> 1], Reload(t, t2))
                  \/ Do([op |-> "reapply", t |-> t, t2 |-> t2, upd |-> Alt], Reapply(t, t2, Alt))

MCSpec == MCInit /\ [][MCNext]_mcvars

Brief(ts) == [t \in DOMAIN ts |-> <<ts[t].net.cpt[1], ts[t].lik, ts[t].src>>]
View == <<nets, Brief(trees)>>

Emit == \/ ~Emitting
        \/ PrintT("@EDGE " \o ToJson([f |-> ToString(<<DOMAIN nets, Brief(trees)>>), o |-> op',
                                       g |-> ToString(<<DOMAIN nets', Brief(trees')>>)]))

(***************************** properties **********************************)
(* The two definitions of the connected components agree, on every DAG over
   four positions numbered topologically. *)
Shapes == {[n |-> 4, top |-> <<1, 2, 3, 4>>, par |-> <<<<>>, SetToSeq(b), SetToSeq(c), SetToSeq(d)>>] :
             b \in SUBSET {1}, c \in SUBSET (1..2), d \in SUBSET (1..3)}
ASSUME \A s \in Shapes : /\ Components(s) = {ReachUG(s, {i}, {i}) : i \in Nodes(s)}
                         /\ \A i \in Nodes(s) : Component(s, i) = ReachUG(s, {i}, {i})

TreeOK(tree) ==
    /\ \A i \in Nodes(tree.net) :
         /\ Len(tree.lik[i]) = tree.net.card[i]
         /\ \A v \in 1..tree.net.card[i] : tree.lik[i][v] \in 0..One
    /\ \A i \in Nodes(tree.net) :
         LET p == Posteriors(tree)[i] IN
         IF i \in DeadNodes(tree) THEN \A v \in DOMAIN p : p[v] = 0
         ELSE Abs(SumSeq(p) - 100000000) <= tree.net.card[i]
TypeOK == \A t \in DOMAIN trees : TreeOK(trees[t])

(* Hard evidence on a variable makes that value certain (if possible). *)
HardIsCertain ==
    \A t \in DOMAIN trees : \A i \in Nodes(trees[t].net) \ DeadNodes(trees[t]) :
      \A v \in 1..trees[t].net.card[i] :
        trees[t].lik[i] = Hard(trees[t].net.card[i], v) => Posteriors(trees[t])[i][v] = 100000000

(* Without evidence the posteriors are the network's marginals. *)
ClearIsPrior ==
    \A t \in DOMAIN trees :
      trees[t].lik = NoEvidence(trees[t].net) =>
        Posteriors(trees[t]) =
          [i \in 1..trees[t].net.n |-> Post8(trees[t].net, trees[t].sup, i)]

(* Toggling the same observation twice returns to where one was, from no
   evidence or from that very observation. *)
ToggleTwice ==
    \A t \in DOMAIN trees : LET tr == trees[t] IN
      \A i \in Nodes(tr.net) : \A v \in 1..tr.net.card[i] :
        LET ev == [node |-> i, type |-> "O", vals |-> <<<<v, 4>>>>]
            l2 == ToggleLik(tr.net, ToggleLik(tr.net, tr.lik, ev), ev)
        IN  tr.lik[i] \in {AllOnes(tr.net.card[i]), Hard(tr.net.card[i], v)} => l2 = tr.lik

(* The order of items in a batch does not matter for different variables. *)
BatchOrder ==
    \A t \in DOMAIN trees : LET tr == trees[t] IN
      \A e1, e2 \in EvFew(tr.net) :
        e1.node # e2.node =>
          UpdateLik(tr.net, tr.lik, <<e1, e2>>) = UpdateLik(tr.net, tr.lik, <<e2, e1>>)

(* Soft evidence that favours nothing is no evidence. *)
FlatIsNothing ==
    \A t \in DOMAIN trees : LET tr == trees[t] IN
      \A i \in Nodes(tr.net) :
        Posteriors([tr EXCEPT !.lik[i] = [v \in DOMAIN @ |-> 2]])
          = Posteriors([tr EXCEPT !.lik[i] = AllOnes(tr.net.card[i])])

(* Only the tree an operation names is affected. *)
Isolation ==
    [][\A t \in DOMAIN trees \cap DOMAIN trees' :
         trees'[t] # trees[t] =>
            \/ "t" \in DOMAIN op' /\ op'.t = t
            \/ "t2" \in DOMAIN op' /\ op'.t2 = t]_mcvars
=============================================================================
