------------------------------- MODULE SIM25 --------------------------------
(* C25: long random histories of records (tlc -simulate).                   *)
EXTENDS Ledger, Json, IOUtils

(* RandomElement of a constant set is evaluated only once, hence k *)
Among(S, k) == RandomElement({x \in S : k >= 0})
Days25 == {"2020-01-01", "2020-01-31", "2020-02-29", "2020-03-01", "2019-12-31", "1999-01-30", "9999-12-31", "0999-02-28"}
Names25 == {"A", "B", "a b", "é", "Expenses", "Income", "_root_", "Food", "A very long name that goes on for more than one line of a narrow window"}
Texts25 == {"", " ", "n", "; n", "2020-01-01 x", "é 日", "a  b", "%s%d"}
Quantities25 == {"1", "-1", "100", "-100", "99", "-5", "0", "12345", "-12345", "4294967296", "-4294967296", "1000000000000000", "-999999999999999",
                 "9007199254740993", "7", "-50"}
Ends25 == {"9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775806"}
RECURSIVE Joined(_, _)
Joined(n, k) == IF n = 0 THEN Among(Names25, k) ELSE Joined(n - 1, k) \o ":" \o Among(Names25, k)
Account25(k) == (IF Among(1..2, k) = 1 THEN "Expenses:" ELSE "") \o Joined(Among({0, 0, 1, 1, 2, 3, 9}, k), k)
Blank25 == [op |-> "", t |-> 0, p |-> 0, text |-> "", account |-> "", has |-> FALSE, c |-> "", q |-> "0", day |-> "", how |-> ""]
OpNames == <<"new", "posting", "posting", "posting", "posting", "omitted", "omitted", "close", "close", "header", "note", "comment", "enter", "enter", "enter",
             "enter", "enter", "enter", "allocation", "add", "subtract", "root", "root">>
Nth(n, k) == IF n = 0 THEN 0 ELSE IF Among(1..2, k) = 1 THEN n ELSE Among(1..n, k)
Enterable(k) == LET s == {p \in 1..Len(w.posts) : w.posts[p].amount # <<>> /\ \A i \in 1..Len(w.entered) : w.entered[i].p # p}
                IN  IF s = {} THEN 0 ELSE Among(s, k)
How25(p, k) == IF p = 0 THEN "journal"
               ELSE IF StartsWith(w.posts[p].account \o ":", "Expenses:") THEN Among({"expense", "journal", "envelope"}, k)
               ELSE Among({"income", "journal", "envelope"}, k)
SimOp(k) ==
    LET name == IF w.txns = <<>> THEN "new" ELSE OpNames[Among(1..Len(OpNames), k)]
        q == Among(IF Among(1..15, k) = 1 THEN Ends25 ELSE Quantities25, k)
        p == IF name = "enter" THEN Enterable(k) ELSE Nth(Len(w.posts), k)
    IN  [Blank25 EXCEPT
            !.op = IF name \in {"omitted", "root"} THEN "posting" ELSE name,
            !.t = Nth(Len(w.txns), k), !.p = p,
            !.text = IF name = "header" THEN Among(Texts25 \ {""}, k) ELSE Among(Texts25, k),
            !.account = IF name = "root" THEN Among({"_budget_root_", "_budget_root_:F"}, k) ELSE IF Among(1..9, k) = 1 THEN Among({"Expenses", "A:B:", "A::B", "x"}, k) ELSE Account25(k),
            !.has = name # "omitted", !.q = q,
            !.c = IF name = "posting" /\ q = "0" /\ Among(1..2, k) = 1 THEN "" ELSE "£",
            !.day = Among(Days25, k),
            !.how = IF name = "enter" THEN How25(p, k) ELSE Among({" ", "!", "*"}, k)]
(* what makes no sense becomes something that does *)
Instead(k) == [Blank25 EXCEPT !.op = "new", !.day = Among(Days25, k), !.how = " ", !.text = "p"]
SimSteps == 40
SimNext == \E o \in {SimOp(Len(hist))} : Apply(IF Sensible(w, o) THEN o ELSE Instead(Len(hist)))
SimSpec == LedgerInit /\ [][SimNext]_lvars
(* the invariants that take long are looked at now and then *)
NowAndThen == Len(hist) % 10 = 0 => AddsUp /\ SameCategories /\ CountedOnce
EmitHistory == Len(hist) = SimSteps =>
    PrintT("CASE " \o ToJson([ops |-> [i \in 1..Len(hist) |-> hist[i].op], res |-> [i \in 1..Len(hist) |-> hist[i].res],
                              seen |-> [i \in 1..Len(hist) |-> hist[i].seen]]))
=============================================================================
