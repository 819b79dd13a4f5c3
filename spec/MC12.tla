------------------------------- MODULE MC12 ---------------------------------
(* C12: lists of accounts and payees of small journals, with patterns.      *)
EXTENDS MC

Names12 == {"A", "A:B", "a", "A-B"}
Blocks12(n) == {B(<<"2020-01-0" \o ToString(n + 1) \o " " \o a, "    " \o b \o "    £1", "    A", "">>) : a \in {"Zoo", "zoo", "A", "é"}, b \in Names12}
Max12 == IF Deep THEN 4 ELSE 3
Pats == <<"a", "A", "^a$", "b|o", "zz", ":", "@A", "=b", "">>
Runs12 == <<Run("accounts"), Run("payees"), [Run("accounts") EXCEPT !.begin = "2020-01-02"], [Run("payees") EXCEPT !.end = "2020-01-02"]>>
          \o [i \in 1..Len(Pats) |-> [Run(IF i % 2 = 0 THEN "accounts" ELSE "payees") EXCEPT !.args = <<Pats[i]>>]]
          \o [i \in 1..Len(Pats) |-> [Run(IF i % 2 = 1 THEN "accounts" ELSE "payees") EXCEPT !.args = <<Pats[i], "é">>]]

Sorted(q) == \A i, j \in 1..Len(q) : i < j => StrLess(q[i], q[j])
Exact == Accepted =>
    LET as == AccountLines(out, Run("accounts"))  ps == PayeeLines(out, Run("payees")) IN
    /\ Sorted(as) /\ Sorted(ps)
    /\ {as[i] : i \in 1..Len(as)} = UNION {{out[i].entry.postings[j].account : j \in 1..Len(out[i].entry.postings)} : i \in 1..Len(out)}
    /\ {ps[i] : i \in 1..Len(ps)} = {out[i].entry.payee : i \in 1..Len(out)}
==============================================================================
