------------------------------- MODULE MC13 ---------------------------------
(* C13: sequences of incomes and expenses.                                  *)
EXTENDS MC

At13(n, k) == DayText(AddDays(<<2020, 2, 20>>, 7 * n + k))
T13(n, k, payee, a, b, amount) == <<At13(n, k) \o " " \o payee, "    " \o a \o "    £" \o amount, "    " \o b, "">>
Burst(n) == FlattenSeq([k \in 1..6 |-> T13(n, k, "many", "Expenses:Food", "Assets", "1")])
Blocks13(n) == {B(T13(n, 0, "work", "Assets", "Income:Work", "10")), B(T13(n, 0, "work", "Assets", "Income", "3.5")),
                B(T13(n, 0, "shop", "Expenses:Food", "Assets", "5")), B(T13(n, 1, "rent", "Expenses", "Assets", "15")),
                B(T13(0, 0, "move", "Assets", "Expenses-2", "1")), B(Burst(n))}
Max13 == IF Deep THEN 6 ELSE 5
(* told what time it is: during the journal, and long after                  *)
Told13(y, m, d, s) == [Run("statistics") EXCEPT !.moment = <<y, m, d, s>>, !.today = <<y, m, d>>]
Runs13 == <<Run("statistics"), [Run("statistics") EXCEPT !.args = <<"expenses">>], [Run("statistics") EXCEPT !.begin = "2020-02-27"],
            Told13(2020, 2, 27, 45), Told13(2020, 3, 5, 7200), Told13(2021, 3, 2, 0)>>

(* Income is never used before it is spent twice: what expenses take from   *)
(* incomes in total is the lesser of the two totals.                        *)
StatsShape == Accepted => \A r1 \in 1..Len(Runs13) :
    LET l == StatisticsLines(out, Runs13[r1])
        sel == Selected(out, Runs13[r1])
    IN  IF sel = <<>> THEN Len(l) = 1 ELSE Len(l) = 9

(* The words for how long ago come in the order of the days.                *)
RECURSIVE PlaceIn(_, _)
PlaceIn(s, q) == IF q = <<>> THEN 0 ELSE IF EndsWith(s, Head(q)) THEN Len(q) ELSE PlaceIn(s, Tail(q))
Units == <<"now", "1 second ago", "seconds ago", "1 minute ago", "minutes ago", "1 hour ago", "hours ago", "1 day ago", "days ago",
           "1 week ago", "weeks ago", "1 month ago", "months ago", "1 year ago", "years ago", "a long while ago">>
Afters == <<0, 1, 59, 60, 3599, 3600, 7200, 86399>>
ASSUME \A i \in 2..Len(Afters) : PlaceIn(InWords(0, Afters[i], " ago"), Units) <= PlaceIn(InWords(0, Afters[i - 1], " ago"), Units)
ASSUME \A n \in 1..14000 : LET x == PlaceIn(InWords(n, 0, " ago"), Units) IN x > 0 /\ x <= PlaceIn(InWords(n - 1, 86399, " ago"), Units)
(* the beginning of a day is as far from a moment as that moment is from it *)
ASSUME \A n \in 1..800 : LET t == AddDays(<<2019, 1, 1>>, n)
                         IN  /\ Ago(<<2019, 1, 1>>, t \o <<0>>) = InWords(n, 0, " ago")
                             /\ Ago(t, <<2019, 1, 1, 0>>) = InWords(n, 0, " from now")
                             /\ Ago(t, <<2019, 1, 1, 86400 - 5>>) = InWords(n - 1, 5, " from now")
==============================================================================
