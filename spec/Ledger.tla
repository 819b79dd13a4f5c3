------------------------------- MODULE Ledger --------------------------------
(***************************************************************************)
(* Package journal as a library: transactions are put together, closed and *)
(* printed; their postings are entered in a journal or in a budget.        *)
(*                                                                         *)
(* w.txns    transactions in order of creation: what is written in the     *)
(*           header, notes, ps: its postings (indices of w.posts), and the *)
(*           one whose amount is omitted, or 0                             *)
(* w.posts   postings in order of creation; amount is <<>> while omitted   *)
(* w.entered the entries made, in order: [p, how], how one of "journal",   *)
(*           "envelope", "expense", "income"                               *)
(* w.reg     an amount that others are added to and subtracted from        *)
(* hist      the operations so far, each with its result and what can be   *)
(*           observed afterwards                                           *)
(***************************************************************************)
EXTENDS Big

VARIABLES w, hist
lvars == <<w, hist>>

EmptyWorld == [txns |-> <<>>, posts |-> <<>>, entered |-> <<>>, reg |-> Zero]

(* amounts in operations are texts: hundredths, with a sign if negative *)
Hundredths(s) == IF StartsWith(s, "-") THEN Neg(FromDigits(FALSE, From(s, 2))) ELSE FromDigits(FALSE, s)
AmountText(a) == a.c \o MoneyText(a.q)

Given(v, t) == SelectSeq(v.txns[t].ps, LAMBDA p : v.posts[p].amount # <<>>)
SumGiven(v, t) == LET g == Given(v, t) IN BigSum([i \in 1..Len(g) |-> v.posts[g[i]].amount.q])
CommodityGiven(v, t) == LET g == SelectSeq(Given(v, t), LAMBDA p : v.posts[p].amount.c # "")
                        IN  IF g = <<>> THEN "" ELSE v.posts[Last1(g)].amount.c
(* the balance can be made zero, by an amount that can be written *)
CanBalance(v, t) == IF v.txns[t].omitted > 0 THEN InInt64(SumGiven(v, t)) /\ InInt64(Neg(SumGiven(v, t)))
                    ELSE SumGiven(v, t) = Zero

(* ---- operations ------------------------------------------------------- *)
(* An operation is [op, t, p, text, account, has, c, q, day, how]; its      *)
(* outcome is [w, res]: the world afterwards and 1, or 0 for an error.      *)
Ok(v) == [w |-> v, res |-> 1]
Refused(v) == [w |-> v, res |-> 0]
Outcome(v, o) ==
    CASE o.op = "new"     -> Ok([v EXCEPT !.txns = Append(@, [day |-> o.day, state |-> o.how, payee |-> o.text, note |-> "",
                                                              notes |-> <<>>, ps |-> <<>>, omitted |-> 0])])
      [] o.op = "header"  -> Ok([v EXCEPT !.txns[o.t].note = o.text])
      [] o.op = "note"    -> Ok([v EXCEPT !.txns[o.t].notes = Append(@, o.text)])
      [] o.op = "comment" -> Ok([v EXCEPT !.posts[o.p].comments = Append(@, o.text)])
      [] o.op = "posting" ->
            LET p == Len(v.posts) + 1
                u == [v EXCEPT !.posts = Append(@, [account |-> o.account, txn |-> o.t, comments |-> <<>>,
                                                    amount |-> IF o.has THEN [c |-> o.c, q |-> Hundredths(o.q)] ELSE <<>>])]
            IN  IF ~o.has /\ v.txns[o.t].omitted > 0 THEN Refused(u)
                ELSE Ok([u EXCEPT !.txns[o.t].ps = Append(@, p), !.txns[o.t].omitted = IF o.has THEN @ ELSE p])
      [] o.op = "close"   ->
            IF ~CanBalance(v, o.t) THEN Refused(v)
            ELSE IF v.txns[o.t].omitted = 0 THEN Ok(v)
            ELSE Ok([v EXCEPT !.posts[v.txns[o.t].omitted].amount = [c |-> CommodityGiven(v, o.t), q |-> Neg(SumGiven(v, o.t))],
                              !.txns[o.t].omitted = 0])
      [] o.op = "enter"   -> Ok([v EXCEPT !.entered = Append(@, [p |-> o.p, how |-> o.how])])
      [] o.op = "allocation" -> Ok(v)            \* a budget entry given to the journal
      [] o.op = "add"     -> Ok([v EXCEPT !.reg = Add(@, Hundredths(o.q))])
      [] o.op = "subtract" -> Ok([v EXCEPT !.reg = Sub(@, Hundredths(o.q))])

(* ---- where entries count ---------------------------------------------- *)
Path(v, e) == Split(v.posts[e.p].account, ":")
MonthOf(v, e) == SubSeq(v.txns[v.posts[e.p].txn].day, 1, 7) \o "-01"
ToRoot(v, e) == e.how = "envelope" /\ v.posts[e.p].account = "_budget_root_"
(* the names of the account an entry belongs to, below the root *)
Place(v, e) == IF e.how = "expense" THEN Tail(Path(v, e)) ELSE IF e.how = "income" \/ ToRoot(v, e) THEN <<>> ELSE Path(v, e)
UpTo(names) == {SubSeq(names, 1, n) : n \in 0..Len(names)}
Below(n, names) == Len(n) <= Len(names) /\ SubSeq(names, 1, Len(n)) = n

Entries(v, hows, month) == SelectSeq(v.entered, LAMBDA e : e.how \in hows /\ (month = "" \/ MonthOf(v, e) = month))
AccountsOf(v, es) == {<<>>} \cup UNION {UpTo(Place(v, es[i])) : i \in 1..Len(es)}
Rows(v, names, plus, minus, own, marked) ==
    (* accounts with these names: the amounts at or below of plus less minus, *)
    (* the postings of own there, and the commodity of those of marked        *)
    LET at(es, n) == SelectSeq(es, LAMBDA e : Below(n, Place(v, e)))
        total(es, n) == LET x == at(es, n) IN BigSum([i \in 1..Len(x) |-> v.posts[x[i].p].amount.q])
        here(n) == LET x == SelectSeq(own, LAMBDA e : Place(v, e) = n /\ ~ToRoot(v, e)) IN [i \in 1..Len(x) |-> x[i].p]
        mark(n) == IF \E i \in 1..Len(marked) : Below(n, Place(v, marked[i])) /\ v.posts[marked[i].p].amount.c # "" THEN "£" ELSE ""
    IN  {[names |-> n, q |-> Sub(total(plus, n), total(minus, n)), c |-> mark(n), posts |-> here(n)] : n \in names}

JournalRows(v) == LET es == Entries(v, {"journal"}, "") IN Rows(v, AccountsOf(v, es), es, <<>>, es, es)
Months(v) == {MonthOf(v, v.entered[i]) : i \in {j \in 1..Len(v.entered) : v.entered[j].how # "journal"}}
EnvelopeRows(v, m) ==
    LET es == Entries(v, {"envelope", "expense"}, m)
        at(n) == IF n = <<>> THEN {"envelope", "expense", "income"} ELSE {"envelope", "expense"}
    IN  Rows(v, AccountsOf(v, es), Entries(v, {"envelope"}, m), Entries(v, {"income"}, m), Entries(v, {"envelope"}, m),
             Entries(v, {"envelope", "expense", "income"}, m))
ExpenseRows(v, m) ==
    LET es == Entries(v, {"envelope", "expense"}, m)
        own == Entries(v, {"expense"}, m)
    IN  Rows(v, AccountsOf(v, es), <<>>, own, own, SelectSeq(es, LAMBDA e : ~ToRoot(v, e)))
IncomeRow(v, m) == LET es == Entries(v, {"income"}, m)
                   IN  CHOOSE r \in Rows(v, {<<>>}, <<>>, es, es, es) : TRUE
AmountsOf(v) == {r.q : r \in JournalRows(v)}
                \cup UNION {{r.q : r \in EnvelopeRows(v, m) \cup ExpenseRows(v, m)} \cup {IncomeRow(v, m).q} : m \in Months(v)}

(* When an operation makes sense.  (One commodity; totals can be written.)  *)
Sensible(v, o) ==
    /\ o.op \in {"header", "note", "posting", "close", "allocation"} => o.t \in 1..Len(v.txns)
    /\ o.op \in {"comment", "enter"} => o.p \in 1..Len(v.posts)
    /\ o.op = "posting" /\ o.has => o.c = "£" \/ Hundredths(o.q) = Zero
    /\ o.op \in {"add", "subtract"} => InInt64(Outcome(v, o).w.reg)
    /\ o.op = "enter" =>
         LET p == v.posts[o.p]
             e == [p |-> o.p, how |-> o.how]
         IN  /\ \E i \in 1..Len(v.txns[p.txn].ps) : v.txns[p.txn].ps[i] = o.p
             /\ p.amount # <<>>
             /\ \A i \in 1..Len(v.entered) : v.entered[i].p # o.p
             /\ o.how = "expense" => StartsWith(p.account \o ":", "Expenses:")
             /\ ToRoot(v, e) => \E x \in {"envelope", "expense", "income"} : \E i \in 1..Len(v.entered) :
                    v.entered[i].how = x /\ MonthOf(v, v.entered[i]) = MonthOf(v, e) /\ v.posts[v.entered[i].p].amount.c # ""
             /\ \A q \in AmountsOf(Outcome(v, o).w) : InInt64(q)

(* ---- what can be observed --------------------------------------------- *)
PostingText(p) == <<"    " \o p.account \o "    " \o AmountText(p.amount)>>
                  \o [i \in 1..Len(p.comments) |-> "      ; " \o p.comments[i]]
TextOf(v, t) ==
    LET x == v.txns[t]
    IN  IF x.omitted > 0 THEN <<"*">>
        ELSE <<x.day \o " " \o x.state \o " " \o x.payee \o (IF x.note = "" THEN "" ELSE "    ; " \o x.note)>>
             \o [i \in 1..Len(x.notes) |-> "    ; " \o x.notes[i]]
             \o FlattenSeq([i \in 1..Len(x.ps) |-> PostingText(v.posts[x.ps[i]])])

Show(rows) == SetToSeq({[names |-> r.names, amount |-> r.c \o MoneyText(r.q), posts |-> r.posts] : r \in rows})
Observed(v) ==
    [txns |-> [t \in 1..Len(v.txns) |-> [day |-> v.txns[t].day, state |-> v.txns[t].state, payee |-> v.txns[t].payee,
                                         note |-> v.txns[t].note, notes |-> v.txns[t].notes, ps |-> v.txns[t].ps,
                                         text |-> TextOf(v, t)]],
     posts |-> [p \in 1..Len(v.posts) |-> [account |-> v.posts[p].account, txn |-> v.posts[p].txn, comments |-> v.posts[p].comments,
                                           amount |-> IF v.posts[p].amount = <<>> THEN "none" ELSE AmountText(v.posts[p].amount)]],
     journal |-> Show(JournalRows(v)),
     months |-> SetToSeq({[month |-> m, envelopes |-> Show(EnvelopeRows(v, m)), expenses |-> Show(ExpenseRows(v, m)),
                           income |-> Show({IncomeRow(v, m)})[1]] : m \in Months(v)}),
     reg |-> <<MoneyText(v.reg), "£" \o MoneyText(v.reg)>>]

LedgerInit == w = EmptyWorld /\ hist = <<>>
Apply(o) == /\ Sensible(w, o)
            /\ w' = Outcome(w, o).w
            /\ hist' = Append(hist, [op |-> o, res |-> Outcome(w, o).res, seen |-> Observed(w')])

(* ---- properties (C25) ------------------------------------------------- *)
(* at most one amount of a transaction is omitted, and it is the one known *)
OneOmitted == \A t \in 1..Len(w.txns) :
    {p \in ToSet(w.txns[t].ps) : w.posts[p].amount = <<>>} = {w.txns[t].omitted} \ {0}
(* what has just been closed balances, and closing it again changes nothing *)
ClosedBalances == hist # <<>> => LET o == Last1(hist).op IN
    o.op = "close" /\ Last1(hist).res = 1 => SumGiven(w, o.t) = Zero /\ Outcome(w, o) = Ok(w)
(* nothing that has been written is changed but by filling in an amount *)
Kept == [][/\ \A p \in 1..Len(w.posts) : /\ w'.posts[p].account = w.posts[p].account /\ w'.posts[p].txn = w.posts[p].txn
                                         /\ IsPrefix(w.posts[p].comments, w'.posts[p].comments)
                                         /\ w.posts[p].amount # <<>> => w'.posts[p].amount = w.posts[p].amount
           /\ \A t \in 1..Len(w.txns) : IsPrefix(w.txns[t].ps, w'.txns[t].ps) /\ IsPrefix(w.txns[t].notes, w'.txns[t].notes)
           /\ IsPrefix(w.entered, w'.entered)]_w
(* every account is worth its own postings and its children *)
RowsAddUp(rows, sign) == \A r \in rows :
    LET kids == SetToSeq({x \in rows : Len(x.names) = Len(r.names) + 1 /\ Below(r.names, x.names)})
        own == BigSum([i \in 1..Len(r.posts) |-> w.posts[r.posts[i]].amount.q])
    IN  r.q = Add(IF sign THEN own ELSE Neg(own), BigSum([i \in 1..Len(kids) |-> kids[i].q]))
AddsUp == /\ RowsAddUp(JournalRows(w), TRUE)
          /\ \A m \in Months(w) : /\ RowsAddUp({r \in EnvelopeRows(w, m) : r.names # <<>>}, TRUE)
                                  /\ RowsAddUp(ExpenseRows(w, m), FALSE)
(* the two trees of a month have the same categories *)
SameCategories == \A m \in Months(w) : {r.names : r \in EnvelopeRows(w, m)} = {r.names : r \in ExpenseRows(w, m)}
(* every entry counts in one place *)
CountedOnce == \A i \in 1..Len(w.entered) :
    LET e == w.entered[i]
        in(rows) == Cardinality({r \in rows : \E k \in 1..Len(r.posts) : r.posts[k] = e.p})
        all == in(JournalRows(w)) + Cardinality({<<m, k>> \in Months(w) \X {"env", "exp", "inc"} :
                    (k = "env" /\ in(EnvelopeRows(w, m)) = 1) \/ (k = "exp" /\ in(ExpenseRows(w, m)) = 1) \/ (k = "inc" /\ in({IncomeRow(w, m)}) = 1)})
    IN  all = IF ToRoot(w, e) THEN 0 ELSE 1
=============================================================================
