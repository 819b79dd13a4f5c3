------------------------------- MODULE MC10 ---------------------------------
(* C10: one transaction on each of a number of days around boundaries, and  *)
(* all pairs of date options from a list.                                   *)
EXTENDS MC

Days10 == <<<<2019, 12, 31>>, <<2020, 1, 1>>, <<2020, 2, 28>>, <<2020, 2, 29>>, <<2020, 3, 1>>, <<2020, 12, 31>>,
            <<Today[1], 1, 1>>, <<Today[1], 3, 1>>, PrevDay(Today), Today, NextDay(Today)>>
File10 == FlattenSeq([i \in 1..Len(Days10) |-> <<DayText(Days10[i]) \o " p" \o ToString(i), "    A" \o ToString(i) \o "    £" \o ToString(i), "    B", "">>])
Files10 == {[f \in {RootFile} |-> File10]}
Options == <<"", "2020", "2020-02", "2020/02/29", "2020.03.01", "03/01", "2019.12.31", "01-01", DayText(Today), DayText(NextDay(Today)),
             "2021-02-29", "13/01", "2020-1-1", "+202", "x">> \o (IF Deep THEN <<"2020-03", "02.28", "2020/01/01", "12-31", "2020-00", "2020-02/29", "9999", "0202">> ELSE <<>>)
(* A command for every pair, in turn. *)
Commands == <<"print", "accounts", "payees", "balance", "statistics", "print">>
Pair(i, j, c1) == [Run(Commands[((i + j) % 6) + 1]) EXCEPT !.begin = Options[i], !.end = Options[j], !.current = c1]
(* Told it is another day: the last and the first second of days around     *)
(* which something changes, with the bounds a current year or day gives.    *)
Moments == <<<<2020, 2, 28, 86399>>, <<2020, 2, 29, 0>>, <<2020, 2, 29, 86399>>, <<2020, 3, 1, 0>>, <<2019, 12, 31, 86399>>, <<2020, 1, 1, 0>>,
             <<2020, 12, 30, 43200>>, <<2020, 12, 31, 43200>>, <<2021, 1, 1, 1>>, <<2020, 1, 31, 43200>>, <<1999, 12, 31, 86399>>, <<2100, 2, 28, 86399>>>>
Told(m, r) == [r EXCEPT !.moment = m, !.today = SubSeq(m, 1, 3)]
RunsAt(m) == <<Told(m, [Run("print") EXCEPT !.current = TRUE]), Told(m, [Run("balance") EXCEPT !.current = TRUE, !.begin = "2020-03-01", !.end = "x"]),
               Told(m, [Run("payees") EXCEPT !.begin = "02/29"]), Told(m, [Run("accounts") EXCEPT !.end = "01-01"]),
               Told(m, [Run("print") EXCEPT !.begin = "02.28", !.end = "12/31"]), Told(m, [Run("statistics") EXCEPT !.current = TRUE]),
               Told(m, [Run("statistics") EXCEPT !.end = "03/01"])>>
RunsTold == FlattenSeq([i \in 1..Len(Moments) |-> RunsAt(Moments[i])])

Runs10 == FlattenSeq([i \in 1..Len(Options) |-> [j \in 1..Len(Options) |-> Pair(i, j, FALSE)]])
          \o [i \in 1..Len(Options) |-> Pair(i, Len(Options) + 1 - i, TRUE)]
          \o RunsTold

Texts(o) == {o[i].t.payee : i \in 1..Len(o)}
(* With a begin and an end at the same day every transaction is on one side *)
(* exactly; both together are the intersection.                             *)
Partition == Accepted => \A i \in 1..Len(Options) : ParseOptionDate(Options[i], Today[1]) # NoDay =>
    LET from == Texts(InDates(out, Pair(i, 1, FALSE)))
        to == Texts(InDates(out, Pair(1, i, FALSE)))
    IN  /\ from \cap to = {} /\ from \cup to = Texts(Txns(out))
        /\ \A j \in 1..Len(Options) : ParseOptionDate(Options[j], Today[1]) # NoDay =>
              Texts(InDates(out, Pair(i, j, FALSE))) = from \cap Texts(InDates(out, Pair(1, j, FALSE)))

(* --current is an end the day after: of any day, however it is reached.    *)
CurrentIsEnd == Accepted => \A i \in 1..Len(Moments) :
    LET m == Moments[i]
        today == SubSeq(m, 1, 3)
    IN  Texts(InDates(out, Told(m, [Run("print") EXCEPT !.current = TRUE])))
            = Texts(InDates(out, [Run("print") EXCEPT !.end = DayText(NextDay(today))]))
==============================================================================
