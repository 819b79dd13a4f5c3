------------------------------- MODULE MC05 ---------------------------------
(* C05: what print prints is read again, and printed again.                 *)
EXTENDS MC

Blocks05(n) == {B(<<"2020-01-0" \o ToString(9 - n) \o " * Shop    ; head", "    ; note", "    A:B    £1.5", "      ; c1", "      ; c2", "    C", "">>),
                B(<<"2020/01/06 Shop;note # in note", "    A  £0", "    ; x  y", "">>),
                B(<<"2020-01-06", "\t# only notes", "">>),
                B(<<"2020.01.06 ! Café ; ", "    Bank A;x    £-3", "    ; ", "    C  £3.0", "    ; c", "">>),
                B(<<"~ 2020-01", "    Food    £3", "">>)}
Max05 == IF Deep THEN 5 ELSE 4
Second05 == IF err = NoError THEN <<PrintLines(out, Run("print"))>> ELSE <<>>
Runs05 == <<Run("print"), [Run("balance") EXCEPT !.zero = TRUE], Run("accounts"), Run("payees")>>

AppendOnly05 == [][phase' = phase => IsPrefix(out, out')]_mvars

Entries(o) == [i \in 1..Len(o) |-> o[i].t]
RoundTrip == phase = 2 /\ Finished =>
    /\ err = NoError
    /\ Entries(Txns(out)) = Entries(ByDate(Txns(memo.out)))
    /\ \A i \in 1..Len(Runs05) : ReportLines(out, Runs05[i]) = ReportLines(memo.out, Runs05[i])
==============================================================================
