------------------------------- MODULE MC02 ---------------------------------
(* C02: every spelling of an amount over a small alphabet up to a length,   *)
(* and the neighbourhood of the ends of the range.                          *)
EXTENDS MC

Limits == {s \o t : s \in {"", "-", "+"},
           t \in {"92233720368547758.07", "92233720368547758.08", "92233720368547758.0", "92233720368547758.1",
                  "92233720368547758", "92233720368547759", "92233720368547757.99", "092233720368547758.07",
                  "922337203685477580.7", "99999999999999999999", "9007199254740993.01", "9007199254740992.99",
                  "90071992547409.93", "4503599627370497.29", "1.005", "1.10", "0.29", "0.57", "1.15", "8.2", "64.4"}}
Commodities == {"£", ""}
Texts02 == Spellings({"0", "1", "9", ".", "-", "+", " ", "x"}, IF Deep THEN 5 ELSE 3)
           \cup Spellings({"0", "7", ".", "-"}, IF Deep THEN 6 ELSE 5) \cup Limits
Files02 == {[f \in {RootFile} |-> <<"2020-01-05 p", "    A    " \o x \o s, "    B">>] : x \in Commodities, s \in Texts02}
Runs02 == <<Run("print")>>

(* What is read is what is written: the text of the value reads as itself,  *)
(* and the value has at most as many decimals as the text.                  *)
ReadsBack == \A i \in 1..Len(out) : \A j \in 1..Len(out[i].entry.postings) :
                LET q == out[i].entry.postings[j].amount.q
                IN  InInt64(q) /\ ParseAmount(MoneyText(q)) = [ok |-> TRUE, q |-> q]
==============================================================================
