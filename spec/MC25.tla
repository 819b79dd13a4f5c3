-------------------------------- MODULE MC25 ---------------------------------
(* C25: all short histories of records, from several beginnings.            *)
EXTENDS Ledger, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"
Steps == IF Deep THEN 6 ELSE 5
Blank == [op |-> "", t |-> 0, p |-> 0, text |-> "", account |-> "", has |-> FALSE, c |-> "", q |-> "0", day |-> "", how |-> ""]
New(day, state) == [Blank EXCEPT !.op = "new", !.day = day, !.how = state, !.text = "p"]
Posting(t, a, c, q) == [Blank EXCEPT !.op = "posting", !.t = t, !.account = a, !.has = TRUE, !.c = c, !.q = q]
Omitted(t, a) == [Blank EXCEPT !.op = "posting", !.t = t, !.account = a]
Do(op, t) == [Blank EXCEPT !.op = op, !.t = t]
Say(op, t, p) == [Blank EXCEPT !.op = op, !.t = t, !.p = p, !.text = "; n"]
Enter(p, how) == [Blank EXCEPT !.op = "enter", !.p = p, !.how = how]

Top == "9223372036854775807"
Accounts25 == {"A", "Expenses:F", "Expenses:F:G"}
Ops25 == {New("2020-02-29", "*")}
         \cup UNION {{Posting(t, a, "£", q) : a \in Accounts25, q \in {"100", "-100"}} \cup {Posting(t, "Expenses", "", "0"), Posting(t, "A", "£", Top)}
                     \cup {Omitted(t, a) : a \in {"A", "Expenses:F"}} \cup {Do("close", t)} : t \in 1..Len(w.txns)}
         \cup {Say(h, Len(w.txns), 0) : h \in {"header", "note", "allocation"}}
         \cup {Say("comment", 0, p) : p \in 1..Len(w.posts)}
         \cup {Enter(p, h) : p \in 1..Len(w.posts), h \in {"journal", "envelope", "expense", "income"}}
(* beginnings: operations that lead there, after which the histories start *)
Whole == <<New("2020-01-31", " "), Posting(1, "Expenses:F", "£", "1000"), Posting(1, "A:B", "£", "-1500"), Omitted(1, "Expenses"), Do("close", 1)>>
Beginnings == {<<>>, <<New("2020-01-31", "!")>>, Whole,
               Whole \o <<New("2020-01-01", " "), Posting(2, "Expenses:F:G", "£", "-5"), Posting(2, "_budget_root_", "£", "5"), Enter(1, "expense")>>,
               Whole \o <<Enter(1, "journal"), New("2020-02-01", " "), Omitted(2, "A:B:C"), Posting(2, "A", "", "0")>>}
RECURSIVE Done(_, _, _)
Done(v, q, i) == IF i > Len(q) THEN v ELSE Done(Outcome(v, q[i]).w, q, i + 1)
RECURSIVE Told(_, _, _)
Told(v, q, i) == IF i > Len(q) THEN <<>>
                 ELSE LET u == Outcome(v, q[i]) IN <<[op |-> q[i], res |-> u.res, seen |-> Observed(u.w)]>> \o Told(u.w, q, i + 1)

VARIABLE steps
MC25Init == \E b \in Beginnings : w = Done(EmptyWorld, b, 1) /\ hist = Told(EmptyWorld, b, 1) /\ steps = 0
(* longer beginnings are followed by shorter histories *)
Max25 == IF Len(hist) - steps > 4 THEN Steps - 2 ELSE Steps - 1
MC25Next == /\ steps < Max25
            /\ steps' = steps + 1
            /\ \E o \in Ops25 :
                 /\ Apply(o)
                 /\ PrintT("CASE " \o ToJson([ops |-> [i \in 1..Len(hist') |-> hist'[i].op],
                                              res |-> [i \in 1..Len(hist') |-> hist'[i].res],
                                              seen |-> <<Last1(hist').seen>>]))
MC25Spec == MC25Init /\ [][MC25Next]_<<w, hist, steps>>
MC25View == <<w, steps, Len(hist)>>
=============================================================================
