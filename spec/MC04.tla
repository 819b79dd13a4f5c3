------------------------------- MODULE MC04 ---------------------------------
(* C04: malformed lines in every place of small journals; every command.    *)
EXTENDS MC

Good == {"2020-01-05 p", "    A    £1", "    B", "", "~ 2020-01", "    ; n"}
Malformed == {"2020-13-01 p", "2021-02-29 p", "x", "    A    £1.005", "    A    £", "    1    £1", "include nowhere", "include", "~", " A  £1",
              "include j.journal", "includes other.journal", "    A    £92233720368547758.08"}
Blocks04(n) == {B(<<s>>) : s \in Good} \cup {B(<<s>>) : s \in Malformed}
Files04 == {[f \in {RootFile, "other.journal"} |-> <<>>]}
Max04 == IF Deep THEN 5 ELSE 4
Runs04 == <<Run("print"), Run("balance"), Run("accounts")>> \o (IF Deep THEN <<Run("payees"), Run("statistics"), Run("budget")>> ELSE <<>>)

(* A malformed line is never passed over, and what is reported is a line    *)
(* that has been reached. *)
NeverPassed == \A i \in 1..Len(files[RootFile]) : files[RootFile][i] \in Malformed => (Finished => Rejected)
Located == Rejected => /\ Len(err) = 1 /\ err[1][1] = RootFile
                       /\ err[1][2] \in 1..(Len(files[RootFile]) + 1)
==============================================================================
