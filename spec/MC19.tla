------------------------------- MODULE MC19 ---------------------------------
(* C19: what print shows for a date range is read as a journal of its own;  *)
(* every report on the range is the report on that journal.                 *)
EXTENDS MC

T19(d, p, a, b, amount) == B(<<d \o " " \o p, "    " \o a \o "    £" \o amount, "    " \o b, "">>)
Blocks19(n) == {T19(d, p, "Expenses:Food", a, "3") : d \in {"2020-01-31", "2020-02-01", "2020-03-01"}, p \in {"p", "q"}, a \in {"Assets", "Income:Work"}}
Max19 == IF Deep THEN 4 ELSE 3
Dated(run) == [run EXCEPT !.begin = "2020-02", !.end = "2020/03/01"]
Second19 == IF err = NoError THEN <<PrintLines(out, Dated(Run("print")))>> ELSE <<>>
All19 == <<Run("print"), [Run("balance") EXCEPT !.zero = TRUE], Run("accounts"), Run("payees"), Run("statistics"), Run("budget")>>
Runs19 == [i \in 1..Len(All19) |-> Dated(All19[i])]
Agreement == phase = 2 /\ Finished =>
    /\ err = NoError
    /\ \A i \in 1..Len(All19) : ReportLines(out, All19[i]) = ReportLines(memo.out, Runs19[i])
AppendOnly19 == [][phase' = phase => IsPrefix(out, out')]_mvars
==============================================================================
