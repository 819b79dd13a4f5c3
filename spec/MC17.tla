------------------------------- MODULE MC17 ---------------------------------
(* C17: all short histories of account operations.  Each transition of the  *)
(* reachable graph is emitted once: the operations that lead there and what *)
(* has to be observable after the last one.                                 *)
EXTENDS AccountTree, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Steps == IF Deep THEN 5 ELSE 4
O(op, on, names, q, depth, cond) == [op |-> op, on |-> on, names |-> names, q |-> q, depth |-> depth, cond |-> cond]

SmallPaths == {<<"a">>, <<"a", "b">>, <<"b", "a", "a">>}
MC17Ops == {O("get", i, p, 0, 0, "leaf") : i \in 1..Len(acct), p \in SmallPaths}
           \cup {O("get", 1, <<>>, 0, 0, "any")}
           \cup {O("post", 1, p, q1, 0, "posted") : p \in SmallPaths, q1 \in {100, -100}}
           \cup {O("prune", i, <<>>, 0, d, "leaf") : i \in 1..Len(acct), d \in 0..2}
           \cup {O("remove", i, <<>>, 0, 0, w) : i \in 1..Len(acct), w \in {"posted", "a", "none"}}
           \cup {O("empty", i, <<>>, 0, 0, "nonzero") : i \in 1..Len(acct)}
           \cup {O("unlink", i, <<>>, 0, 0, "b") : i \in 2..Len(acct)}

MC17Next == /\ Len(hist) < Steps
            /\ \E o \in MC17Ops :
                 /\ Apply(o)
                 /\ PrintT("TREE " \o ToJson([ops |-> [i \in 1..Len(hist') |-> hist'[i].op],
                                              res |-> [i \in 1..Len(hist') |-> hist'[i].res],
                                              seen |-> <<Last1(hist').seen>>]))
MC17Spec == TreeInit /\ [][MC17Next]_tvars
MC17View == <<acct, Len(hist)>>
=============================================================================
