------------------------------ MODULE Potentials ------------------------------
(***************************************************************************)
(* Tables over discrete variables, as a machine of named tables.           *)
(*                                                                         *)
(* A table is [vs |-> sequence of variables, card |-> their numbers of     *)
(* values, val |-> assignment -> rational]; an assignment is the sequence  *)
(* of value positions in the order of vs.  Every action names the one      *)
(* table it may change (two for a message: separator and receiver).        *)
(***************************************************************************)
EXTENDS Rational
VARIABLE tabs
pvars == <<tabs>>

PutTab(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* All assignments, in the order in which tables list them: the last       *)
(* variable varies fastest.                                                *)
RECURSIVE Listing(_)
Listing(card) ==
    IF card = <<>> THEN << <<>> >>
    ELSE LET rest == Listing(Tail(card)) IN
         FlattenSeq([v \in 1..card[1] |-> [k \in 1..Len(rest) |-> <<v>> \o rest[k]]])

PosOf(vs, v) == CHOOSE k \in 1..Len(vs) : vs[k] = v
(* The part of an assignment over vs that concerns the variables us. *)
Project(vs, a, us) == [k \in 1..Len(us) |-> a[PosOf(vs, us[k])]]

Table(vs, card, vals) ==
    LET as == Listing(card) IN
    [vs |-> vs, card |-> card, val |-> [a \in Range1(as) |-> vals[CHOOSE k \in 1..Len(as) : as[k] = a]]]
UnitTable1(vs, card) == [vs |-> vs, card |-> card, val |-> [a \in Range1(Listing(card)) |-> <<1, 1>>]]

MargOf(t, us) ==
    LET card == [k \in 1..Len(us) |-> t.card[PosOf(t.vs, us[k])]] IN
    [vs |-> us, card |-> card,
     val |-> [b \in Range1(Listing(card)) |->
                FoldSet(LAMBDA a, acc : RAdd(acc, t.val[a]), <<0, 1>>,
                        {a \in DOMAIN t.val : Project(t.vs, a, us) = b})]]
TimesOf(t, u) ==
    [t EXCEPT !.val = [a \in DOMAIN t.val |-> RMul(t.val[a], u.val[Project(t.vs, a, u.vs)])]]
(* quotient of tables over the same variables in the same order *)
OverOf(t, u) == [t EXCEPT !.val = [a \in DOMAIN t.val |-> RDiv(t.val[a], u.val[a])]]
TotalOf(t) == FoldSet(LAMBDA a, acc : RAdd(acc, t.val[a]), <<0, 1>>, DOMAIN t.val)
NormOf(t) ==
    LET z == TotalOf(t) IN
    IF z[1] = 0 THEN t ELSE [t EXCEPT !.val = [a \in DOMAIN t.val |-> RDiv(t.val[a], z)]]

Build(k, vs, card, vals) == tabs' = PutTab(tabs, k, Table(vs, card, vals))
Ones(k, vs, card) == tabs' = PutTab(tabs, k, UnitTable1(vs, card))
Margin(k, k2, us) == tabs' = PutTab(tabs, k2, MargOf(tabs[k], us))
Times(k, k2) == tabs' = PutTab(tabs, k, TimesOf(tabs[k], tabs[k2]))
Over(k, k2, k3) == tabs' = PutTab(tabs, k3, OverOf(tabs[k], tabs[k2]))
Norm(k) == tabs' = PutTab(tabs, k, NormOf(tabs[k]))
(* a message from x over the separator s to y *)
Pass(x, s, y) ==
    LET new == MargOf(tabs[x], tabs[s].vs) IN
    tabs' = PutTab(PutTab(tabs, s, new), y, TimesOf(tabs[y], OverOf(new, tabs[s])))
(* the same without dividing by what was sent before: a wrong design *)
PassCareless(x, s, y) ==
    LET new == MargOf(tabs[x], tabs[s].vs) IN
    tabs' = PutTab(PutTab(tabs, s, new), y, TimesOf(tabs[y], new))
Entry(k, a, v) == tabs' = PutTab(tabs, k, [tabs[k] EXCEPT !.val[a] = v])
Dup(k, k2) == tabs' = PutTab(tabs, k2, tabs[k])

(* the assignments of t that agree with a partial assignment <<<<v, p>>..>> *)
Matching(t, part) ==
    {a \in DOMAIN t.val : \A j \in 1..Len(part) :
        /\ part[j][1] \in Range1(t.vs)
        /\ a[PosOf(t.vs, part[j][1])] = part[j][2]}
=============================================================================
