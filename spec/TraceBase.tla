------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common frame of all trace specifications.  The file named by the        *)
(* environment variable TRACE holds a JSON array of traces                 *)
(*     [tid |-> Nat, ev |-> <<event, ...>>]                                *)
(* A trace specification replays each trace through the actions of the     *)
(* system specification; every step yields the set of named clauses the    *)
(* recorded observation violates, reported as one JSON line.               *)
(* The runner requires that exactly Sum(Len(ev)+1) states were found, so a *)
(* trace that is not consumed to its end is never accepted.                *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Sequences, Integers

Traces == JsonDeserialize(IOEnv.TRACE)

Report(tid, l, bad) ==
    \/ bad = {}
    \/ PrintT("@BAD " \o ToJson([tid |-> tid, l |-> l, bad |-> bad]))

If(cond, name) == IF cond THEN {name} ELSE {}
Has(r, f) == f \in DOMAIN r
=============================================================================
