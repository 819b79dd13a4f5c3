------------------------------- MODULE MC15 ---------------------------------
(* C15: allocations, spending and income in two months.                     *)
EXTENDS MC

T15(d, a, b, amount) == B(<<d \o " p", "    " \o a \o "    £" \o amount, "    " \o b, "">>)
Blocks15(n) == {B(<<"~ 2020-01", "    Food    £5", "    Food:Out    £0.5", "">>), B(<<"~ 2020-02", "    Rent    £7", "">>),
                B(<<"~ 2020-01", "    Rent    £1", "    Food", "">>),
                T15("2020-01-31", "Expenses:Food", "Assets", "3"), T15("2020-02-01", "Expenses:Food:Out", "Assets", "2"),
                T15("2020-01-01", "Expenses:Rent", "Income:Work", "9"), T15("2020-02-29", "Assets", "Income", "11"),
                T15("2020-01-05", "Expenses", "Assets", "4"), T15("2020-02-05", "Assets", "Liabilities", "4"),
                T15("2019-12-31", "Expenses:food", "Expenses:Rent", "1")}
Max15 == 3
Runs15 == <<Run("budget"), [Run("budget") EXCEPT !.begin = "2020-02"]>> \o (IF Deep THEN <<[Run("budget") EXCEPT !.args = <<"food">>]>> ELSE <<>>)

PsOfTxns(o) == LET w == Txns(o) IN [i \in 1..Len(w) |-> [t |-> w[i].t, ps |-> w[i].t.postings]]
OfMonth(items, m) == SelectSeq(items, LAMBDA x : x.m = m)
(* Every category's availability is budget plus activity; all activity of a *)
(* month is minus what its Expenses accounts received under a name; nothing *)
(* of another month counts.                                                 *)
Figures == Accepted =>
    LET items == BudgetItems(out, Run("budget"))
        ms == {items[i].m : i \in 1..Len(items)}
        ps(m) == SelectSeq(PostingsOf(SelectSeq(PsOfTxns(out), LAMBDA x : MonthOf(x.t.date) = m)),
                           LAMBDA p : HeadIs(p.account, ExpensesName) /\ Len(Split(p.account, ":")) > 1)
    IN  \A m \in ms :
          LET mine == OfMonth(items, m)
              cats == SetToSeq(CategoriesOf(mine))
              f(c1) == CategoryFigures(mine, c1)
          IN  /\ \A c1 \in CategoriesOf(mine) : f(c1).available = Add(f(c1).budgeted, f(c1).activity)
              /\ BigSum([i \in 1..Len(cats) |-> f(cats[i]).activity])
                    = Neg(BigSum([i \in 1..Len(ps(m)) |-> ps(m)[i].amount.q]))
              /\ MonthLines(items, m) = MonthLines(mine, m)
==============================================================================
