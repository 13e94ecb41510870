------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The inference session: networks, compiled trees, and the operations     *)
(* users apply to them.  The observable state of a compiled tree is the    *)
(* network it answers for and the likelihood of every value in force; all  *)
(* posteriors and all internal tables are functions of that pair.          *)
(***************************************************************************)
EXTENDS Evidence

VARIABLES
    nets,    \* network slot -> network
    trees    \* tree slot -> [net, sup, lik, src]; src = network slot whose
             \* node objects the tree shares, or 0 if it owns its nodes

sessvars == <<nets, trees>>

SessInit == nets = <<>> /\ trees = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]

Fresh(net, sup, src) == [net |-> net, sup |-> sup, lik |-> NoEvidence(net), src |-> src]

(* A network is built (or replaced by an independent one). *)
Build(s, net) ==
    /\ nets' = Put(nets, s, net)
    /\ UNCHANGED trees

(* A network is changed in place.  Trees that share its node objects are
   retired: nothing is promised about them any more. *)
Change(s, net) ==
    /\ s \in DOMAIN nets
    /\ nets' = Put(nets, s, net)
    /\ trees' = Drop(trees, {t \in DOMAIN trees : trees[t].src = s})

Compile(t, s) ==
    /\ s \in DOMAIN nets
    /\ trees' = Put(trees, t, Fresh(nets[s], SupportSeq(nets[s]), s))
    /\ UNCHANGED nets

SetLik(t, lik) ==
    /\ trees' = [trees EXCEPT ![t].lik = lik]
    /\ UNCHANGED nets

Accepts(t, evs) == \A k \in 1..Len(evs) : ValidEv(trees[t].net, evs[k])

UpdateLik(net, lik, evs) ==
    FoldLeft(LAMBDA acc, ev : [acc EXCEPT ![ev.node] = Normalise(net, ev)], lik, evs)

Update(t, evs) ==
    /\ t \in DOMAIN trees
    /\ Accepts(t, evs)
    /\ SetLik(t, UpdateLik(trees[t].net, trees[t].lik, evs))

(* A batch with an unknown variable or value is refused as a whole. *)
Refused(t, evs) ==
    /\ t \in DOMAIN trees
    /\ ~Accepts(t, evs)
    /\ UNCHANGED sessvars

ToggleLik(net, lik, ev) ==
    LET l == Normalise(net, ev) IN
    IF IsHard(l) /\ lik[ev.node] = l
    THEN [lik EXCEPT ![ev.node] = AllOnes(Len(l))]
    ELSE [lik EXCEPT ![ev.node] = l]

Toggle(t, ev) ==
    /\ t \in DOMAIN trees
    /\ ValidEv(trees[t].net, ev)
    /\ SetLik(t, ToggleLik(trees[t].net, trees[t].lik, ev))

Retract(t, ns) ==
    /\ t \in DOMAIN trees
    /\ \A k \in 1..Len(ns) : ns[k] \in Nodes(trees[t].net)
    /\ SetLik(t, [i \in 1..trees[t].net.n |->
                    IF \E k \in 1..Len(ns) : ns[k] = i
                    THEN AllOnes(trees[t].net.card[i]) ELSE trees[t].lik[i]])

RetractAll(t) ==
    /\ t \in DOMAIN trees
    /\ SetLik(t, NoEvidence(trees[t].net))

Copy(t, t2) ==
    /\ t \in DOMAIN trees
    /\ trees' = Put(trees, t2, [trees[t] EXCEPT !.src = 0])
    /\ UNCHANGED nets

(* New tables for some variables: a tree without evidence of its own. *)
WithTables(net, upd) ==
    [net EXCEPT !.cpt = [i \in 1..net.n |-> IF upd[i] = <<>> THEN net.cpt[i] ELSE upd[i]]]
Reapply(t, t2, upd) ==
    /\ t \in DOMAIN trees
    /\ LET net == WithTables(trees[t].net, upd)
       IN  trees' = Put(trees, t2, Fresh(net, SupportSeq(net), 0))
    /\ UNCHANGED nets

(* Saved, loaded, and inference applied again: evidence is not saved. *)
Reload(t, t2) ==
    /\ t \in DOMAIN trees
    /\ trees' = Put(trees, t2, [trees[t] EXCEPT !.src = 0, !.lik = NoEvidence(trees[t].net)])
    /\ UNCHANGED nets

Query == UNCHANGED sessvars

(***************************************************************************)
(* Observables                                                             *)
(***************************************************************************)
(* Weighted support of one connected component under the evidence there. *)
CompWs(tree, C) == TLCEval(Weighted(tree.net, tree.sup, TLCEval(LikIn(tree.net, tree.lik, C))))

Possible(tree) == \A C \in Components(tree.net) : CompWs(tree, C) # <<>>

ZeroPost(net, i) == [v \in 1..net.card[i] |-> 0]

(* <<posterior of every value in 10^-8>> per position. *)
Posteriors(tree) ==
    LET net == tree.net
        comps == SetToSeq(Components(net))
        tab == TLCEval([c \in 1..Len(comps) |->
                  LET ws == CompWs(tree, comps[c]) IN
                  [i \in comps[c] |-> IF ws = <<>> THEN ZeroPost(net, i) ELSE Post8(net, ws, i)]])
    IN  TLCEval([i \in 1..net.n |->
           tab[CHOOSE c \in 1..Len(comps) : i \in comps[c]][i]])

(* Positions lying in a component whose evidence is impossible. *)
DeadNodes(tree) ==
    UNION {C \in Components(tree.net) : CompWs(tree, C) = <<>>}

(***************************************************************************)
(* The joint of a set of variables (in the order vs) with the evidence in  *)
(* their component: its total num/den * eps^order (num = 0 if the evidence *)
(* is impossible), and the share of every assignment in 10^-8 units.       *)
(***************************************************************************)
CompDen(net, C) == FoldSet(LAMBDA i, acc : acc * net.den[i], 1, C)
TableOf(tree, vs) ==
    LET net == tree.net
        C == Component(net, vs[1])
        ws == CompWs(tree, C)
        den == CompDen(net, C) * LikDen(tree.lik, C)
        other == DenAll(net) \div CompDen(net, C)
        nums == FoldLeft(LAMBDA acc, e :
                    LET key == [k \in 1..Len(vs) |-> e[1][vs[k]]]
                    IN  IF key \in DOMAIN acc THEN [acc EXCEPT ![key] = @ + e[2]]
                        ELSE acc @@ (key :> e[2]),
                    <<>>, ws)
        total == Mass(ws)
    IN  [num |-> total \div other, den |-> den, ord |-> IF ws = <<>> THEN 0 ELSE ws[1][3],
         share |-> [key \in DOMAIN nums |-> Scale8(nums[key], total)]]
TableAt(tab, key) == IF key \in DOMAIN tab.share THEN tab.share[key] ELSE 0

(* num/den * 10^k in 10^-8 units, or -1 where that is far more than 1 *)
RECURSIVE Shifted(_, _, _)
Shifted(num, den, k) ==
    IF k = 0 THEN Scale8(num, den)
    ELSE IF num > 2 * den \/ num > 10 ^ 8 THEN -1
    ELSE Shifted(num * 10, den, k - 1)
(* m * 10^-8 * 10^-k is the total of the table (eps = 10^-20) *)
TotalOf(tab, m, k) ==
    IF tab.num = 0 THEN m = 0
    ELSE LET j == k - 20 * tab.ord
             g == Gcd(tab.num, tab.den)
         IN  j \in 0..9 /\ Abs(m - Shifted(tab.num \div g, tab.den \div g, j)) <= 2

=============================================================================
