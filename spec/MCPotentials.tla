----------------------------- MODULE MCPotentials -----------------------------
(* Two clusters <<a,b>> and <<b,c>> over the separator <<b>>, all tables    *)
(* with small values, messages in any order and number; and the laws of    *)
(* the table operations on every reachable table.                          *)
EXTENDS Potentials, IOUtils
VARIABLES joint, n
Vals == {<<0, 1>>, <<1, 1>>, <<2, 1>>}
Careless == IF "CARELESS" \in DOMAIN IOEnv THEN IOEnv.CARELESS = "1" ELSE FALSE
All2 == Listing(<<2, 2>>)
Tables2(vs, vals) == {[vs |-> vs, card |-> <<2, 2>>, val |-> f] : f \in [Range1(All2) -> vals]}
Wide == IF "WIDE" \in DOMAIN IOEnv THEN IOEnv.WIDE = "1" ELSE FALSE
Joint ==
    [a \in Range1(Listing(<<2, 2, 2>>)) |->
        RDiv(RMul(tabs["x"].val[<<a[1], a[2]>>], tabs["y"].val[<<a[2], a[3]>>]), tabs["s"].val[<<a[2]>>])]
MCInit ==
    /\ \E x \in Tables2(<<1, 2>>, Vals) :
       \E y \in Tables2(<<2, 3>>, IF Wide THEN Vals ELSE {<<0, 1>>, <<2, 1>>}) :
         tabs = [k \in {"x", "y", "s"} |-> IF k = "x" THEN x ELSE IF k = "y" THEN y ELSE UnitTable1(<<2>>, <<2>>)]
    /\ joint = Joint /\ n = <<>>
MCNext ==
    /\ Len(n) < 3
    /\ UNCHANGED joint
    /\ \E d \in {<<"x", "y">>, <<"y", "x">>} :
         /\ n' = Append(n, d)
         /\ IF Careless THEN PassCareless(d[1], "s", d[2]) ELSE Pass(d[1], "s", d[2])
MCSpec == MCInit /\ [][MCNext]_<<tabs, joint, n>>
JointKept == Joint = joint
Calibrated ==
    {<<"x", "y">>, <<"y", "x">>} \subseteq Range1(n) =>
        /\ MargOf(tabs["x"], <<2>>) = tabs["s"]
        /\ MargOf(tabs["y"], <<2>>) = tabs["s"]
Laws ==
    \A k \in {"x", "y"} :
        LET t == tabs[k]
            b == <<2>>
            o == SelectSeq(t.vs, LAMBDA v : v # 2)
            m == MargOf(t, b)
        IN  /\ TotalOf(m) = TotalOf(t) /\ TotalOf(MargOf(t, <<>>)) = TotalOf(t)
            /\ MargOf(MargOf(t, <<t.vs[2], t.vs[1]>>), b) = m
            /\ MargOf(t, t.vs) = t
            /\ MargOf(TimesOf(t, m), b) = TimesOf(m, m)
            /\ TimesOf(OverOf(t, t), t) = t
            /\ TimesOf(TimesOf(t, MargOf(t, o)), m) = TimesOf(TimesOf(t, m), MargOf(t, o))
            /\ NormOf(NormOf(t)) = NormOf(t)
            /\ TotalOf(t)[1] # 0 => TotalOf(NormOf(t)) = <<1, 1>>
            /\ Matching(t, <<>>) = DOMAIN t.val
            /\ \A v \in 1..2 : RSum([j \in 1..1 |-> m.val[<<v>>]]) =
                 FoldSet(LAMBDA a, acc : RAdd(acc, t.val[a]), <<0, 1>>, Matching(t, << <<2, v>> >>))
=============================================================================
