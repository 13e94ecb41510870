------------------------------ MODULE MCSampler ------------------------------
EXTENDS Sampler, IOUtils
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
Net1 == [n |-> 3, card |-> <<2, 3, 2>>, par |-> <<<<3>>, <<1, 3>>, <<>>>>, den |-> <<4, 4, 4>>,
         cpt |-> << << <<1, 3>>, <<4, 0>> >>,
                    << <<1, 2, 1>>, <<4, 0, 0>>, <<0, 2, 2>>, <<1, 0, 3>> >>,
                    << <<3, 1>> >> >>, top |-> <<3, 1, 2>>]
Net2 == [n |-> 4, card |-> <<2, 2, 2, 2>>, par |-> <<<<>>, <<>>, <<2, 1>>, <<3>>>>, den |-> <<2, 4, 4, 2>>,
         cpt |-> << << <<1, 1>> >>, << <<1, 3>> >>, << <<4, 0>>, <<1, 3>>, <<0, 4>>, <<2, 2>> >>,
                    << <<2, 0>>, <<1, 1>> >> >>, top |-> <<1, 2, 3, 4>>]
Nets == {Net1, Net2}
EvSets(net) ==
    {e \in SUBSET {<<i, v>> : i \in Nodes(net), v \in 1..2} :
        /\ Cardinality(e) <= 2
        /\ \A p, q \in e : p[1] = q[1] => p = q
        /\ \E s \in Support(net) : Agrees(s[1], e)}
MCInit == \E net \in Nets : \E e \in EvSets(net), k \in 0..(IF Env("DEEP") = "1" THEN 2 ELSE 1) : SampInit(net, e, k)
MCSpec == MCInit /\ [][SampNext]_sampvars
(* every assignment of positive probability that agrees with the evidence can still be drawn *)
NoneLost ==
    Len(got) < wanted /\ part = Blank(snet) =>
      \E s \in Support(snet) : Agrees(s[1], ev)
=============================================================================
