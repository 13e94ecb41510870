----------------------------- MODULE TraceCompile -----------------------------
(***************************************************************************)
(* Recorded structures of compiled trees.  The network in force per slot   *)
(* is [n, par]; every event shows the structure of live trees:             *)
(*   [t, s, cl: <<clusters>>, sp: <<[vs, nb: <<neighbour clusters>>, lr]>>,*)
(*    edges: <<[l, r, vs]>>]                                               *)
(***************************************************************************)
EXTENDS Compile, TraceBase
VARIABLES cnets, tid, l, bad
tvars == <<cnets, tid, l, bad>>
E == Traces[tid].ev[l + 1]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

TInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ bad = {} /\ cnets = <<>>
         /\ phase = "" /\ graph = {} /\ verts = {} /\ left = {} /\ cur = {} /\ forest = [cl |-> {}, sp |-> {}]

ObsClause(o) ==
    LET net == cnets'[o.s]
        V == Nodes(net)
        M == Moral(net)
        ends(x) == {Range1(x.nb[k]) : k \in 1..Len(x.nb)}
        wellFormed == \A k \in 1..Len(o.sp) :
                         /\ Len(o.sp[k].nb) = 2 /\ Cardinality(ends(o.sp[k])) = 2
                         /\ {Range1(o.sp[k].lr[1]), Range1(o.sp[k].lr[2])} = ends(o.sp[k])
        mk(vs, E2) == LET a == CHOOSE c \in E2 : TRUE IN
                      [vs |-> vs, a |-> a, b |-> CHOOSE c \in E2 : c # a]
        f == [cl |-> {Range1(o.cl[k]) : k \in 1..Len(o.cl)},
              sp |-> IF wellFormed THEN {mk(Range1(o.sp[k].vs), ends(o.sp[k])) : k \in 1..Len(o.sp)} ELSE {}]
        dup == \/ Cardinality(f.cl) # Len(o.cl)
               \/ \E k \in 1..Len(o.cl) : Cardinality(Range1(o.cl[k])) # Len(o.cl[k])
               \/ \E k \in 1..Len(o.sp) : Cardinality(Range1(o.sp[k].vs)) # Len(o.sp[k].vs)
    IN  If(dup, "duplicate-clusters")
        \cup If(~CoversAll(f, V), "variables-missing")
        \cup If(~ContainsMoral(f, M), "moral-edge-missing")
        \cup If(~(\A i \in V : \E c \in f.cl : Family(net, i) \subseteq c), "family-does-not-fit")
        \cup If(~NoNesting(f), "nested-clusters")
        \cup If(CoversAll(f, V) /\ ~OneChordalGraph(f, V), "not-the-cliques-of-a-chordal-graph")
        \cup If(~wellFormed, "separator-ends")
        \cup IF ~wellFormed THEN {} ELSE
             If(~SeparatorsRight(f), "separator-not-the-intersection")
             \cup If(Cardinality(f.sp) # Len(o.sp) \/ ~Forest(f), "not-a-forest")
             \cup If(CoversAll(f, V) /\ ~TreePerComponent(f, M, V), "not-one-tree-per-component")
             \cup If(~RunningIntersection(f, V), "running-intersection")
             \cup If(\/ Len(o.edges) # Len(o.sp)
                     \/ {[vs |-> Range1(o.edges[k].vs), e |-> {Range1(o.edges[k].l), Range1(o.edges[k].r)}] : k \in 1..Len(o.edges)}
                        # {[vs |-> s.vs, e |-> {s.a, s.b}] : s \in f.sp}, "edge-list")

Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup UNION {ObsClause(e.obs[k]) : k \in 1..Len(e.obs)}

TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ cnets' = IF E.op = "net" THEN Put(cnets, E.s, E.net) ELSE cnets
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
    /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext]_<<tvars, cvars>>
=============================================================================
