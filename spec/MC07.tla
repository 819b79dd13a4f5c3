------------------------------- MODULE MC07 ---------------------------------
(* C07: transfers between the accounts of a small tree.                     *)
EXTENDS MC

Tree07 == {"A", "A:B", "A:B:C", "A::C", "E:B"}
Blocks07(n) == {B(<<"2020-01-0" \o ToString(n + 1) \o " p", "    " \o a \o "    £" \o (IF n = 1 THEN "2" ELSE "1"), "    " \o b, "">>) :
                <<a, b>> \in {p \in Tree07 \X Tree07 : p[1] # p[2]}}
Max07 == IF Deep THEN 4 ELSE 3
Runs07 == <<[Run("balance") EXCEPT !.zero = TRUE], Run("balance"), [Run("balance") EXCEPT !.zero = TRUE, !.args = <<"b">>],
            [Run("balance") EXCEPT !.flat = TRUE, !.zero = TRUE, !.begin = "2020-01-02"]>>

Own(ps, n) == LET w == SelectSeq(ps, LAMBDA p : p.account = n) IN BigSum([i \in 1..Len(w) |-> w[i].amount.q])
RollUp == Accepted => \A r1 \in 1..Len(Runs07) :
    LET ps == PostingsOf(Selected(out, Runs07[r1]))
        tot == TLCEval(Totals(ps))
        kids(n) == SetToSeq({m \in DOMAIN tot \ {""} : ParentOf(m) = n})
    IN  /\ \A n \in DOMAIN tot : tot[n] = Add(Own(ps, n), LET k == kids(n) IN BigSum([i \in 1..Len(k) |-> tot[k[i]]]))
        /\ Runs07[r1].args = <<>> => tot[""] = Zero
        /\ DOMAIN tot = UNION {Ancestors(ps[i].account) : i \in 1..Len(ps)} \cup {""}
==============================================================================
