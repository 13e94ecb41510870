-------------------------------- MODULE Learn --------------------------------
(***************************************************************************)
(* The network a data table determines: records are sequences of value     *)
(* ranks (1..card), par[c] the sequence of parent columns of column c.     *)
(***************************************************************************)
EXTENDS BBN
Matches(r, ps, q) == \A k \in 1..Len(ps) : r[ps[k]] = q[k]
CountL(data, c, ps, q, v) == FoldLeft(LAMBDA acc, r : IF r[c] = v /\ Matches(r, ps, q) THEN acc + 1 ELSE acc, 0, data)
RECURSIVE Tuples(_)
(* all parent configurations, last fastest *)
Tuples(cs) == IF cs = <<>> THEN << <<>> >>
              ELSE LET t == Tuples(Tail(cs)) IN
                   FlattenSeq([v \in 1..cs[1] |-> [k \in 1..Len(t) |-> <<v>> \o t[k]]])
(* counts per configuration; all ones where there is no record *)
RowL(data, card, c, ps, q) ==
    LET n == [v \in 1..card[c] |-> CountL(data, c, ps, q, v)]
    IN  IF SumSeq(n) = 0 THEN [v \in 1..card[c] |-> 1] ELSE n
RowsL(data, card, c, ps) ==
    LET qs == Tuples([k \in 1..Len(ps) |-> card[ps[k]]]) IN
    [k \in 1..Len(qs) |-> RowL(data, card, c, ps, qs[k])]
Lcm(a, b) == (a \div Gcd(a, b)) * b
LearnedNet(data, card, par, top) ==
    LET raw == [c \in 1..Len(card) |-> RowsL(data, card, c, par[c])]
        red(row) == LET g == FoldLeft(LAMBDA acc, x : Gcd(acc, x), 0, row) IN [v \in 1..Len(row) |-> row[v] \div g]
        rows == [c \in 1..Len(card) |-> [k \in 1..Len(raw[c]) |-> red(raw[c][k])]]
        den == [c \in 1..Len(card) |-> FoldLeft(LAMBDA acc, r : Lcm(acc, SumSeq(r)), 1, rows[c])]
    IN  [n |-> Len(card), card |-> card, par |-> par, den |-> den, top |-> top,
         cpt |-> [c \in 1..Len(card) |-> [k \in 1..Len(rows[c]) |->
                    [v \in 1..card[c] |-> rows[c][k][v] * (den[c] \div SumSeq(rows[c][k]))]]]]
=============================================================================
