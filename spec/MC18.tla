------------------------------- MODULE MC18 ---------------------------------
(* C18: allocations strewn between transactions; the alternative text is    *)
(* the same without them.                                                   *)
EXTENDS MC

Same(t) == [text |-> t, alt |-> t]
Blocks18(n) == {Same(<<"2020-01-05 p" \o ToString(n), "    Expenses:Food    £1", "    Assets", "">>),
                Same(<<"2020-02-05 q" \o ToString(n), "    Assets    £2", "    Liabilities", "    ; c", "">>),
                B(<<"~ 2020-01", "    Food    £1", "">>), B(<<"~ 2020-03", "    Assets    £1", "    ; note", "    Unique    $5", "">>),
                B(<<"~ 2020-02", "    ; n", "    Food    £1", "    Rent", "">>)}
Max18 == IF Deep THEN 5 ELSE 4
Second18 == IF err = NoError THEN <<alternative>> ELSE <<>>
Others == <<[Run("balance") EXCEPT !.zero = TRUE], Run("print"), Run("accounts"), Run("payees"), Run("statistics")>>
Runs18 == Others
SameReports == phase = 2 /\ Finished =>
    /\ err = NoError
    /\ \A i \in 1..Len(Others) : ReportLines(out, Others[i]) = ReportLines(memo.out, Others[i])
(* transactions without Expenses or Income are no business of the budget *)
BudgetOnly == phase = 1 /\ Accepted =>
    BudgetLines(out, Run("budget"))
      = BudgetLines(SelectSeq(out, LAMBDA x : x.entry.kind = "allocation" \/
                      \E j \in 1..Len(x.entry.postings) : HeadIs(x.entry.postings[j].account, ExpensesName) \/ HeadIs(x.entry.postings[j].account, IncomeName)),
                    Run("budget"))
AppendOnly18 == [][phase' = phase => IsPrefix(out, out')]_mvars
==============================================================================
