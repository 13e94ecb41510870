------------------------------- MODULE MCHugin -------------------------------
EXTENDS Hugin, IOUtils
Env(k) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE ""
Nets == [
  chain |-> [n |-> 3, card |-> <<2, 2, 2>>, par |-> <<<<>>, <<1>>, <<2>>>>, den |-> <<4, 4, 4>>,
             cpt |-> <<<< <<1, 3>> >>, << <<4, 0>>, <<1, 3>> >>, << <<2, 2>>, <<0, 4>> >> >>, top |-> <<1, 2, 3>>],
  diamond |-> [n |-> 4, card |-> <<2, 2, 2, 2>>, par |-> <<<<>>, <<1>>, <<1>>, <<3, 2>>>>, den |-> <<2, 4, 2, 4>>,
             cpt |-> <<<< <<1, 1>> >>, << <<4, 0>>, <<1, 3>> >>, << <<1, 1>>, <<0, 2>> >>,
                       << <<4, 0>>, <<1, 3>>, <<2, 2>>, <<0, 4>> >> >>, top |-> <<1, 2, 3, 4>>],
  path |-> [n |-> 4, card |-> <<2, 3, 2, 2>>, par |-> <<<<2>>, <<3>>, <<>>, <<3>>>>, den |-> <<2, 4, 4, 2>>,
             cpt |-> <<<< <<1, 1>>, <<2, 0>>, <<0, 2>> >>, << <<1, 2, 1>>, <<4, 0, 0>> >>, << <<1, 3>> >>,
                       << <<1, 1>>, <<0, 2>> >> >>, top |-> <<3, 2, 4, 1>>],
  island |-> [n |-> 4, card |-> <<2, 2, 2, 2>>, par |-> <<<<>>, <<1>>, <<>>, <<3>>>>, den |-> <<4, 4, 2, 2>>,
             cpt |-> <<<< <<1, 3>> >>, << <<4, 0>>, <<1, 3>> >>, << <<1, 1>> >>, << <<2, 0>>, <<1, 1>> >> >>,
             top |-> <<1, 2, 3, 4>>] ]
Net == Nets[IOEnv.NET]
Rounds == IF Env("ROUNDS") = "2" THEN 2 ELSE IF Env("ROUNDS") = "3" THEN 3 ELSE 1
Careless == Env("CARELESS") = "1"     \* multiply in even over earlier evidence: must be found out
Liks(i) == IF Net.card[i] = 2 THEN {<<4, 4>>, <<4, 0>>, <<0, 4>>, <<1, 4>>}
           ELSE {<<4, 4, 4>>, <<0, 4, 0>>, <<1, 4, 0>>}
Where == IF Env("ALLNODES") = "1" THEN Nodes(Net) ELSE {1, Net.n}

MCInit == CompileInit(Nodes(Net), Moral(Net)) /\ Idle
Less(c, d) == \E k \in Nodes(Net) : /\ \A j \in 1..(k-1) : j \in c <=> j \in d
                                    /\ k \in c /\ k \notin d
Change ==
    /\ calm < Rounds
    /\ \E i \in Where : \E l \in Liks(i) :
         \/ (Careless \/ lik[i] = AllOnes(Net.card[i])) /\ Incremental(i, l)
         \/ ~Careless /\ Restart(i, l)
MCNext ==
    \/ /\ \/ \E v \in left : Eliminate(v)
          \/ phase = "span" /\ \E s \in Candidates : Less(s.a, s.b) /\ Span(s)
          \/ Finish
       /\ UNCHANGED hvars
    \/ Load(Net)
    \/ \E s \in forest.sp : \E c \in Ends(s) : Send(s, c)
    \/ hnet # <<>> /\ Change
MCSpec == MCInit /\ [][MCNext]_<<cvars, hvars>>
Forests == phase = "done" => Valid(forest, graph, verts, {Family(Net, i) : i \in Nodes(Net)})
=============================================================================
