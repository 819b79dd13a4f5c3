------------------------------- MODULE SIM17 --------------------------------
(* C17: long random histories of account operations (tlc -simulate), with   *)
(* wide and deep trees and awkward names.                                   *)
EXTENDS AccountTree, Json, IOUtils

SimNames == {"a", "b", "Ab", "z", "_root_", "_budget_root_", "a b", "é", "Expenses", ""}
Quantities17 == {1, -1, 100, -100, 99, 12345, 0}
SimConds == SimNames \cup {"nonzero", "posted", "leaf", "any", "none"}
RemoveConds == SimNames \cup {"nonzero", "posted", "none"}
(* RandomElement of a constant set is evaluated only once, hence k *)
Among(S, k) == RandomElement({x \in S : k >= 0})
SimPath(k) == [i \in 1..Among(1..6, k) |-> Among(SimNames, k)]
(* most paths share their beginnings *)
Narrow(k) == [i \in 1..Among(1..5, k) |-> Among({"a", "b"}, k)]
(* few go far down *)
Far(k) == [i \in 1..Among(8..22, k) |-> Among({"a", "b"}, k + i)]
LongName == "a name of more than the thirty-two letters that fit into two machine words twice over"
SimNamesOf(k) == CASE Among(1..30, k) = 1 -> Far(k)
                   [] Among(1..60, k) = 1 -> <<LongName, "a">>
                   [] Among(1..3, k) = 1 -> SimPath(k)
                   [] OTHER -> Narrow(k)
SomeAccount == RandomElement(1..Len(acct))
OpNames == <<"get", "get", "get", "get", "post", "post", "post", "post", "postto", "find", "prune", "remove", "empty", "unlink">>
SimOp(k) == LET name == OpNames[Among(1..Len(OpNames), k)] IN
    [op |-> name,
     on |-> IF name = "post" \/ (name \in {"get", "empty", "remove"} /\ Among(1..2, k) = 1) THEN 1 ELSE SomeAccount,
     names |-> SimNamesOf(k),
     q |-> Among(Quantities17, k), depth |-> IF Among(1..8, k) = 1 THEN Among(5..20, k) ELSE Among(0..4, k),
     cond |-> Among(IF name = "remove" THEN RemoveConds ELSE SimConds, k)]
SimSteps == 20
SimNext == \E o \in {SimOp(Len(hist))} : Apply(IF Sensible(acct, o) THEN o ELSE [o EXCEPT !.op = "find"])
SimSpec == TreeInit /\ [][SimNext]_tvars
Bounded == Len(hist) <= SimSteps
EmitTree == Len(hist) = SimSteps =>
    PrintT("TREE " \o ToJson([ops |-> [i \in 1..Len(hist) |-> hist[i].op], res |-> [i \in 1..Len(hist) |-> hist[i].res],
                              seen |-> [i \in 1..Len(hist) |-> hist[i].seen]]))
=============================================================================
