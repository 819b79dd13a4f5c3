------------------------------- MODULE MC06 ---------------------------------
(* C06: transactions told apart by their payee: some on three days, and     *)
(* every two (three, when thorough) of a set of days that are next to each  *)
(* other, or alike in their month, day of the month or day of the year.     *)
EXTENDS MC

Days06 == {"1677-09-20", "1677-09-21", "1900-02-28", "1900-03-01", "1969-12-31", "1970-01-01", "1999-12-31", "2000-01-01",
           "2000-02-29", "2000-12-30", "2000-12-31", "2001-01-01", "2019-12-31", "2020-01-01", "2020-01-31", "2020-02-01",
           "2020-02-28", "2020-02-29", "2020-03-01", "2020-09-10", "2020-10-09", "2020-12-30", "2020-12-31", "2021-01-01",
           "2021-12-31", "2022-01-01", "2038-01-19", "2038-01-20", "2100-02-28", "2100-03-01", "2262-04-11", "2262-04-12", "9999-12-31",
           DayText(PrevDay(Today)), DayText(Today), DayText(AddDays(Today, 1)), DayText(AddDays(Today, 364)),
           DayText(AddDays(Today, 365))}
On(q) == FlattenSeq([i \in 1..Len(q) |-> <<q[i] \o " p" \o ToString(i), "    A    £1", "    Z", "">>])
Files06 == {[f \in {RootFile} |-> <<>>]}
           \cup {[f \in {RootFile} |-> On(q)] : q \in [1..2 -> Days06]}
           \cup {[f \in {RootFile} |-> On(q)] : q \in [1..3 -> IF Deep THEN Days06 ELSE
                    {"2020-12-30", "2020-12-31", "2021-01-01", "2021-12-30", "2021-12-31", "2022-01-01"}]}
Blocks06(n) == IF n = 0 /\ files[RootFile] # <<>> THEN {} ELSE
               {B(<<d \o " p" \o ToString(n), "    " \o a \o "    £1", "    Z", "">>) :
                d \in {"2020-02-28", "2020-02-29", "2020-03-01"}, a \in {"A:B", "C"}}
Max06 == IF Deep THEN 5 ELSE 4
Runs06 == <<Run("print"), [Run("print") EXCEPT !.args = <<"b">>], [Run("print") EXCEPT !.begin = "2020-02-29"],
            [Run("print") EXCEPT !.end = "2020-03", !.args = <<"@p[02]">>]>>

Ordered(q) == \A i, j \in 1..Len(q) : i < j => DayNumber(q[i].t.date) <= DayNumber(q[j].t.date)
Place(o, x) == CHOOSE i \in 1..Len(o) : o[i].t = x.t
(* a permutation of the selected transactions, in date order, equal dates in reading order *)
StableOrder == Accepted => \A r1 \in 1..Len(Runs06) :
    LET sel == Selected(out, Runs06[r1])
        q == ByDate(sel)
    IN  /\ Len(q) = Len(sel) /\ {q[i] : i \in 1..Len(q)} = {sel[i] : i \in 1..Len(sel)}
        /\ Ordered(q)
        /\ \A i, j \in 1..Len(q) : i < j /\ q[i].t.date = q[j].t.date => Place(sel, q[i]) < Place(sel, q[j])
==============================================================================
