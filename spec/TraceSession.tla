----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Recorded sessions of the real library, checked against Session.         *)
(***************************************************************************)
EXTENDS Session, TraceBase

VARIABLES tid, l, bad, last   \* last: tree slot -> posteriors last observed

tvars == <<nets, trees, tid, l, bad, last>>

Tol == 2
E == Traces[tid].ev[l + 1]

TInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 0
    /\ bad = {}
    /\ last = <<>>
    /\ SessInit

Act(e) ==
    CASE e.op = "net"      -> Build(e.s, e.net)
      [] e.op = "change"   -> Change(e.s, e.net)
      [] e.op = "compile"  -> Compile(e.t, e.s)
      [] e.op = "update"   -> Update(e.t, e.evs) \/ Refused(e.t, e.evs)
      [] e.op = "toggle"   -> Toggle(e.t, e.evs[1]) \/ Refused(e.t, e.evs)
      [] e.op = "retract"  -> Retract(e.t, e.nodes)
      [] e.op = "clear"    -> RetractAll(e.t)
      [] e.op = "resave"   -> Build(e.s2, nets[e.s])
      [] e.op = "copy"     -> Copy(e.t, e.t2)
      [] e.op = "reapply"  -> Reapply(e.t, e.t2, e.upd)
      [] e.op = "reload"   -> Reload(e.t, e.t2)
      [] e.op \in {"query", "broken"} -> Query

(* ----- what the operation itself must have reported -------------------- *)
MustRefuse(e) == e.op \in {"update", "toggle"} /\ ~Accepts(e.t, e.evs)
ErrorClause(e) ==
    IF MustRefuse(e) THEN If(e.err = "", "accepts-invalid-evidence")
    ELSE If(e.err # "", "unexpected-error")

(* ----- normalised likelihoods, as the evidence objects show them -------- *)
NormClause(e) ==
    IF Has(e, "norm") /\ e.err = "" /\ ~MustRefuse(e)
    THEN If(\E k \in 1..Len(e.evs) :
              e.norm[k] # Normalise(trees[e.t].net, e.evs[k]), "normalisation")
    ELSE {}

(* ----- posteriors -------------------------------------------------------*)
Near(a, b) == Abs(a - b) <= Tol
NearPost(p, q) ==
    /\ Len(p) = Len(q)
    /\ \A i \in 1..Len(p) :
         /\ Len(p[i]) = Len(q[i])
         /\ \A v \in 1..Len(p[i]) : Near(p[i][v], q[i][v])

(* names of the posterior clauses violated by one observation *)
PostClause(e, o) ==
    IF o.t \notin DOMAIN trees' THEN {}
    ELSE LET tree == trees'[o.t]
             want == Posteriors(tree)
             dead == DeadNodes(tree)
             wrong(p) == IF Len(p) # tree.net.n THEN Nodes(tree.net)
                         ELSE {i \in Nodes(tree.net) :
                            \/ Len(p[i]) # tree.net.card[i]
                            \/ \E v \in 1..tree.net.card[i] : ~Near(p[i][v], want[i][v])}
             w == wrong(o.p) \cup wrong(o.q)
             target == Has(e, "t") /\ (e.t = o.t \/ (Has(e, "t2") /\ e.t2 = o.t))
         IN  If(w \cap dead # {}, "impossible-evidence-not-zero")
             \cup If(w \ dead # {}, "posterior")
             \cup If(w # {} /\ ~target, "posterior-of-untouched-tree")
             \cup If(w # {} /\ MustRefuse(e), "refused-evidence-left-a-trace")
             \cup If(/\ ~target /\ o.t \in DOMAIN last /\ ~NearPost(o.p, last[o.t]),
                     "untouched-tree-changed")
             \cup If(~NearPost(o.p, o.q), "two-readings-differ")

(* ----- the likelihoods a tree reports as in force ------------------------ *)
LikClause(o) ==
    IF ~Has(o, "lik") \/ o.t \notin DOMAIN trees' THEN {}
    ELSE If(o.lik # trees'[o.t].lik, "likelihood-in-force")

(* ----- cluster and separator tables ------------------------------------ *)
TableClause(o) ==
    IF ~Has(o, "tabs") \/ o.t \notin DOMAIN trees' THEN {}
    ELSE If(\E k \in 1..Len(o.tabs) :
              LET tb == o.tabs[k]
                  want == TableOf(trees'[o.t], tb.vs)
                  size == ProdSeq([j \in 1..Len(tb.vs) |-> trees'[o.t].net.card[tb.vs[j]]])
              IN  \/ Len(tb.e) # size
                  \/ ~TotalOf(want, tb.tot[1], tb.tot[2])
                  \/ \E j \in 1..Len(tb.e) :
                       ~Near(tb.e[j][2], TableAt(want, tb.e[j][1])),
            "cluster-table")

(* ----- the network as its own accessors show it ------------------------- *)
SameNet(seen, net) ==
    /\ seen.n = net.n
    /\ seen.card = net.card
    /\ seen.par = net.par
    /\ \A i \in 1..net.n :
         /\ Len(seen.cpt[i]) = Len(net.cpt[i])
         /\ \A r \in 1..Len(net.cpt[i]) :
              /\ Len(seen.cpt[i][r]) = net.card[i]
              /\ \A v \in 1..net.card[i] :
                   Near(seen.cpt[i][r][v],
                        IF OrderAt(net, i, r, v) > 0 THEN 0 ELSE Scale8(net.cpt[i][r][v], net.den[i]))
NetClause(e) ==
    IF ~Has(e, "seen") THEN {}
    ELSE If(\E k \in 1..Len(e.seen) :
              LET x == e.seen[k] IN
              x.s \in DOMAIN nets' /\ ~(x.ok /\ SameNet(x.net, nets'[x.s])),
            "network-changed")

Verdict(e) ==
    ErrorClause(e) \cup NormClause(e) \cup NetClause(e)
    \cup UNION {PostClause(e, e.obs[k]) \cup LikClause(e.obs[k]) \cup TableClause(e.obs[k]) : k \in 1..Len(e.obs)}

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1
    /\ tid' = tid
    /\ Act(E)
    /\ bad' = Verdict(E)
    /\ last' = FoldLeft(LAMBDA acc, o : Put(acc, o.t, o.p), last, E.obs)
    /\ Report(tid, l + 1, bad')

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
