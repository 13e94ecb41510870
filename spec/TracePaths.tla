------------------------------ MODULE TracePaths ------------------------------
EXTENDS Paths, TraceBase
VARIABLES tid, l, bad
E == Traces[tid].ev[l + 1]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ bad = {}

PathClauses(D, q) ==
    LET P == SimplePaths(D, q.x, q.y)
        got == {q.paths[k].p : k \in 1..Len(q.paths)}
    IN  If(got # P \/ Len(q.paths) # Cardinality(P), "paths-listed")
        \cup UNION { LET r == q.paths[k] IN
              If(r.p \in P /\ r.act # Active(D, r.p, {}), "listed-activity")
              \cup If(r.p \in P /\ (RangeP(r.col) # CollidersOf(D, r.p) \/ Len(r.col) # Cardinality(CollidersOf(D, r.p))), "listed-colliders")
              \cup If(r.p \in P /\ RangeP(r.z) # Inner(r.p) \ CollidersOf(D, r.p), "listed-non-colliders")
              \cup If(r.p \in P /\ (r.back # BackPath(D, r.p) \/ r.front # FrontPath(D, r.p)), "listed-direction")
              \cup If(r.x # q.x \/ r.y # q.y, "listed-ends")
              : k \in 1..Len(q.paths) }
        \cup UNION { LET s == q.sets[k] S == RangeP(s.s) IN
              If(\E j \in 1..Len(s.act) : s.act[j].p \in P /\ s.act[j].a # Active(D, s.act[j].p, S), "activity")
              \cup If({s.act[j].p : j \in 1..Len(s.act)} = P /\ (\A j \in 1..Len(s.act) : ~s.act[j].a) # DSep(D, q.x, q.y, S), "d-separation")
              \cup If({s.act[j].p : j \in 1..Len(s.act)} # P, "paths-listed")
              : k \in 1..Len(q.sets) }
SetClauses(D, q) ==
    LET P == SimplePaths(D, q.x, q.y) IN
    If(<<q.y, q.x>> \notin D /\ ~GoodConfounders(D, q.x, q.y, P, RangeP(q.conf)), "minimal-confounders")
    \cup If(<<q.y, q.x>> \notin D /\ RangeP(q.all) # AllConfounders(D, q.x, P), "all-confounders")
    \cup If(~GoodMediators(D, q.x, q.y, P, RangeP(q.med)), "minimal-mediators")
    \cup If(\/ Cardinality(RangeP(q.conf)) # Len(q.conf) \/ Cardinality(RangeP(q.all)) # Len(q.all)
            \/ Cardinality(RangeP(q.med)) # Len(q.med), "listed-twice")

Verdict(e) ==
    If(e.err # "", "unexpected-error")
    \cup IF e.err # "" THEN {}
         ELSE LET D == {<<e.arcs[k][1], e.arcs[k][2]>> : k \in 1..Len(e.arcs)} IN
              If(\E k \in 1..Len(e.trip) : e.trip[k].t # Kind(D, e.trip[k].x, e.trip[k].z, e.trip[k].y), "triplet-type")
              \cup If(~e.same, "graph-changed")
              \cup UNION {PathClauses(D, e.pairs[k]) \cup SetClauses(D, e.pairs[k]) : k \in 1..Len(e.pairs)}
TNext ==
    /\ l < Len(Traces[tid].ev)
    /\ l' = l + 1 /\ tid' = tid
    /\ bad' = Verdict(E)
    /\ Report(tid, l + 1, bad')
TSpec == TInit /\ [][TNext]_<<tid, l, bad>>
=============================================================================
