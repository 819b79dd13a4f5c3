-------------------------------- MODULE MC01 ---------------------------------
(* C01: transactions of up to five postings, with omitted amounts, amounts  *)
(* that cancel, nearly cancel, and cancel only when wrapped to 64 bits.     *)
EXTENDS MC

BIGTEXT == "92233720368547758.07"
Posts == {"    A    £1.00", "    B    £-0.99", "    A:C    £-0.01", "    B    £-1", "    D    0",
          "    E", "    A", "    A    £" \o BIGTEXT, "    B    £-" \o BIGTEXT, "    D    £0.02"}

Blocks01(n) == IF n = 0 THEN {B(<<"2020-01-05 * payee">>), B(<<"2020-01-05 ! payee    ; note">>), B(<<"~ 2020-01">>)}
               ELSE {B(<<s>>) : s \in Posts} \cup (IF n = 2 THEN {B(<<"", "2020-01-06 next">>)} ELSE {})
Max01 == IF Deep THEN 6 ELSE 5
Runs01 == <<Run("print")>>

(* An entry is delivered exactly when its sum can be made zero. *)
Delivered == Accepted => Len(out) = Cardinality({i \in 1..Len(files[RootFile]) : Ch(files[RootFile][i] \o " ", 1) \in {"2", "~"}})
Filled == \A i \in 1..Len(out) : \A j \in 1..Len(out[i].entry.postings) : InInt64(out[i].entry.postings[j].amount.q)
=============================================================================
