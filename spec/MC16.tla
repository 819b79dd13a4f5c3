------------------------------- MODULE MC16 ---------------------------------
(* C16: reading never changes a file, and what a command prints is a        *)
(* function of the files: every run is made three times.                    *)
EXTENDS MC

T16(d, a, b, amount) == B(<<d \o " " \o a, "    " \o a \o "    £" \o amount, "    " \o b, "">>)
Blocks16(n) == {B(<<"~ 2020-01", "    Food    £5", "    Zoo    £1", "    Rent    £1", "">>), B(<<"~ 2020-02", "    Rent    £7", "    A    £2", "">>),
                T16("2020-01-31", "Expenses:Food", "Expenses:Zoo:a", "3"), T16("2020-02-01", "Expenses:Food:Out", "Assets", "2"),
                T16("2020-01-31", "Expenses:Rent", "Income:Work", "9"), T16("2020-01-31", "B", "A", "1"),
                B(<<"include other.journal", "">>)}
Files16 == {[f \in {RootFile, "other.journal"} |-> IF f = RootFile THEN <<>> ELSE <<"2020-01-31 C", "    C    £1", "    D:E", "">>]}
Max16 == IF Deep THEN 5 ELSE 4
Thrice(q) == q \o q \o q
Runs16 == Thrice(<<Run("print"), Run("budget"), Run("statistics"), Run("balance"), Run("accounts"), Run("payees"),
                   [Run("payees") EXCEPT !.args = <<"food|rent", "b">>], [Run("accounts") EXCEPT !.args = <<"e">>]>>)
Untouched16 == [][files' = files \/ blocks' = blocks + 1]_mvars
==============================================================================
