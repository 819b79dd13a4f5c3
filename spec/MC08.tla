------------------------------- MODULE MC08 ---------------------------------
(* C08: transfers that leave some accounts at zero.                         *)
EXTENDS MC

Tree08 == {"A", "A:B", "A:B:C", "A:D", "E"}
Blocks08(n) == {B(<<"2020-01-01 p", "    " \o a \o "    £1", "    " \o b, "">>) : <<a, b>> \in {p \in Tree08 \X Tree08 : p[1] # p[2]}}
               \cup {B(<<"2020-01-01 p", "    A:B:C    £0", "">>), B(<<"2020-01-01 p", "    A:B    £42949672.96", "    E", "">>),
                     B(<<"2020-01-01 p", "    E    £-655.36", "    A:D    £655.36", "">>)}
Max08 == IF Deep THEN 4 ELSE 3
Both(run) == <<run, [run EXCEPT !.zero = TRUE]>>
Runs08 == Both(Run("balance")) \o Both([Run("balance") EXCEPT !.flat = TRUE]) \o Both([Run("balance") EXCEPT !.collapse = TRUE])

Hiding == Accepted =>
    LET ps == PostingsOf(Selected(out, Run("balance")))
        tot == TLCEval(Totals(ps))
        some == TLCEval(Shown(tot, FALSE))
        all == TLCEval(Shown(tot, TRUE))
    IN  /\ some \subseteq all /\ all = DOMAIN tot \ {""}
        /\ \A n \in all : tot[n] # Zero => Ancestors(n) \subseteq some
        /\ \A n \in all \ some : \A m \in all : AtOrBelow(m, n) => tot[m] = Zero /\ m \notin some
        \* -Z only adds lines
        /\ LET w == BalanceOf(ps, Run("balance"))  z == BalanceOf(ps, [Run("balance") EXCEPT !.zero = TRUE])
           IN  some # {} => \A i \in 1..Len(w) : \E j \in 1..Len(z) : w[i] = z[j]
==============================================================================
