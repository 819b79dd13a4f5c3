------------------------------ MODULE Reports -------------------------------
(***************************************************************************)
(* Which transactions and postings a command covers and what it prints.    *)
(*                                                                         *)
(* A run is a record: cmd, args (filter arguments), begin, end (option     *)
(* texts, "" if absent), current, flat, collapse, zero (BOOLEAN), and      *)
(* today, the day it was run, and moment, <<year, month, day, second>> in UTC,*)
(* if the time was told (<<>> if not).                                        *)
(*                                                                         *)
(* The expected output is a sequence of sets of strings, one per line:     *)
(* the line has to be one of the set; {} stands for any line.              *)
(***************************************************************************)
EXTENDS Journal, Regex

RootName == "_root_"
ExpensesName == "Expenses"
IncomeName == "Income"

(* ---- selection -------------------------------------------------------- *)
BeginDay(run) == ParseOptionDate(run.begin, run.today[1])
EndDay(run)   == ParseOptionDate(run.end, run.today[1])
BadDates(run) == ~run.current /\ \/ run.begin # "" /\ BeginDay(run) = NoDay
                                 \/ run.end # "" /\ EndDay(run) = NoDay

InRange(day, run) ==
    IF run.current THEN DayNumber(day) <= DayNumber(run.today)
    ELSE /\ run.begin # "" => DayNumber(day) >= DayNumber(BeginDay(run))
         /\ run.end # "" => DayNumber(day) < DayNumber(EndDay(run))

FiltersOf(run) == [i \in 1..Len(run.args) |-> Filter(run.args[i])]

MatchesWhole(t, fs) ==
    \E i \in 1..Len(fs) :
        \/ fs[i].kind = "payee" /\ PatternMatches(fs[i].pat, t.payee)
        \/ fs[i].kind = "note" /\ \/ PatternMatches(fs[i].pat, t.note)
                                  \/ \E j \in 1..Len(t.notes) : PatternMatches(fs[i].pat, t.notes[j])
MatchesPosting(p, fs) ==
    \E i \in 1..Len(fs) :
        \/ fs[i].kind = "account" /\ PatternMatches(fs[i].pat, p.account)
        \/ fs[i].kind = "note" /\ \E j \in 1..Len(p.comments) : PatternMatches(fs[i].pat, p.comments[j])

CoveredPostings(t, fs) ==
    IF fs = <<>> \/ MatchesWhole(t, fs) THEN t.postings
    ELSE SelectSeq(t.postings, LAMBDA p : MatchesPosting(p, fs))

(* the delivered transactions as [t, file] *)
Txns(o) == LET w == Transactions(o) IN [i \in 1..Len(w) |-> [t |-> w[i].entry, file |-> w[i].file]]
InDates(o, run) == LET all == Txns(o) IN SelectSeq(all, LAMBDA x : InRange(x.t.date, run))

(* ... that a command with filters covers, as [t, file, ps] *)
Selected(o, run) ==
    LET fs == FiltersOf(run)
        d  == InDates(o, run)
        c  == [i \in 1..Len(d) |-> [t |-> d[i].t, file |-> d[i].file, ps |-> CoveredPostings(d[i].t, fs),
                                    whole |-> fs = <<>> \/ MatchesWhole(d[i].t, fs)]]
    IN  SelectSeq(c, LAMBDA x : x.whole \/ x.ps # <<>>)

PostingsOf(sel) == FlattenSeq([i \in 1..Len(sel) |-> sel[i].ps])

One(s) == {s}
Exactly(q) == [i \in 1..Len(q) |-> {q[i]}]

(* ---- print ------------------------------------------------------------ *)
AmountText(a) == a.c \o MoneyText(a.q)

PostingLines(p) ==
    <<"    " \o p.account \o "    " \o AmountText(p.amount)>>
    \o [i \in 1..Len(p.comments) |-> "      ; " \o p.comments[i]]

TransactionLines(t) ==
    <<DayText(t.date) \o " " \o t.state \o " " \o t.payee \o (IF t.note = "" THEN "" ELSE "    ; " \o t.note)>>
    \o [i \in 1..Len(t.notes) |-> "    ; " \o t.notes[i]]
    \o FlattenSeq([i \in 1..Len(t.postings) |-> PostingLines(t.postings[i])])
    \o <<"">>

(* a stable sort by date *)
DaysIn(S) == SetToSortSeq(S, LAMBDA a, b : DayNumber(a) < DayNumber(b))
ByDate(q) == LET days == TLCEval(DaysIn({q[i].t.date : i \in 1..Len(q)}))
             IN  FlattenSeq([k \in 1..Len(days) |-> SelectSeq(q, LAMBDA x : x.t.date = days[k])])

PrintLines(o, run) == LET sel == ByDate(Selected(o, run))
                      IN  FlattenSeq([i \in 1..Len(sel) |-> TransactionLines(sel[i].t)])

(* ---- accounts and payees ---------------------------------------------- *)
AnyPattern(pats, s) == pats = <<>> \/ \E i \in 1..Len(pats) : PatternMatches(pats[i], s)

AccountLines(o, run) ==
    LET d == InDates(o, run)
        fs == FiltersOf(run)
        pats == [i \in 1..Len(fs) |-> fs[i].pat]
        names == UNION {{d[i].t.postings[j].account : j \in 1..Len(d[i].t.postings)} : i \in 1..Len(d)}
    IN  SortedStrings({n \in names : AnyPattern(pats, n)})

PayeeLines(o, run) ==
    LET d == InDates(o, run)
        pats == [i \in 1..Len(run.args) |-> Pattern(run.args[i])]
        names == {d[i].t.payee : i \in 1..Len(d)}
    IN  SortedStrings({n \in names : AnyPattern(pats, n)})

(* ---- balance ---------------------------------------------------------- *)
(* An account is its full path; its ancestors are the prefixes up to a     *)
(* colon.  The root is "".                                                 *)
ColonsIn(a) == {i \in 1..Len(a) : Ch(a, i) = ":"}
Ancestors(a) == {SubSeq(a, 1, i - 1) : i \in ColonsIn(a)} \cup {a}
ParentOf(a) == IF ColonsIn(a) = {} THEN "" ELSE SubSeq(a, 1, Max(ColonsIn(a)) - 1)
NameOf(a)   == IF ColonsIn(a) = {} THEN a ELSE From(a, Max(ColonsIn(a)) + 1)
AtOrBelow(a, n) == n = "" \/ a = n \/ StartsWith(a, n \o ":")

Accounts(ps) == UNION {Ancestors(ps[i].account) : i \in 1..Len(ps)}
TotalOf(ps, n) == LET w == SelectSeq(ps, LAMBDA p : AtOrBelow(p.account, n))
                  IN  BigSum([i \in 1..Len(w) |-> w[i].amount.q])
FirstCommodity(ps, n) ==
    LET w == SelectSeq(ps, LAMBDA p : AtOrBelow(p.account, n) /\ p.amount.c # "")
    IN  IF w = <<>> THEN "" ELSE w[1].amount.c

(* all accounts with their totals, and those that are shown *)
Totals(ps) == [n \in Accounts(ps) \cup {""} |-> TotalOf(ps, n)]
Shown(tot, zero) == {n \in DOMAIN tot \ {""} : zero \/ \E m \in DOMAIN tot : AtOrBelow(m, n) /\ tot[m] # Zero}

LessByName(a, b) == StrLess(NameOf(a), NameOf(b))
Kids(shown, n) == SetToSortSeq({m \in shown : ParentOf(m) = n}, LessByName)

Column(c, q) == PadLeft(c \o MoneyText(q), 20)

(* v: [tot, com, kids]: total, commodity and shown children per account *)
View(ps, zero) ==
    LET tot == TLCEval(Totals(ps))
        shown == TLCEval(Shown(tot, zero))
    IN  [tot |-> tot,
         com |-> [n \in shown \cup {""} |-> FirstCommodity(ps, n)],
         shown |-> shown,
         kids |-> TLCEval([n \in shown \cup {""} |-> Kids(shown, n)])]

Line(v, n, depth, label) == Column(v.com[n], v.tot[n]) \o "  " \o Repeat("  ", depth) \o label

RECURSIVE TreeLines(_, _, _)
TreeLines(v, n, depth) ==
    <<Line(v, n, depth, NameOf(n))>>
    \o FlattenSeq([i \in 1..Len(v.kids[n]) |-> TreeLines(v, v.kids[n][i], depth + 1)])

RECURSIVE ChainEnd(_, _)
ChainEnd(v, n) == IF Len(v.kids[n]) = 1 THEN ChainEnd(v, v.kids[n][1]) ELSE n

RECURSIVE CollapsedLines(_, _, _)
CollapsedLines(v, n, depth) ==
    LET e == ChainEnd(v, n)
        above == IF ParentOf(n) = "" THEN 0 ELSE Len(ParentOf(n)) + 1
    IN  <<Line(v, e, depth, From(e, above + 1))>>
        \o FlattenSeq([i \in 1..Len(v.kids[e]) |-> CollapsedLines(v, v.kids[e][i], depth + 1)])

RECURSIVE FlatLines(_, _)
FlatLines(v, n) ==
    IF v.kids[n] = <<>> THEN <<Line(v, n, 0, n)>>
    ELSE FlattenSeq([i \in 1..Len(v.kids[n]) |-> FlatLines(v, v.kids[n][i])])

BalanceOf(ps, run) ==
    LET v == View(ps, run.zero)
        roots == v.kids[""]
        body == IF roots = <<>> THEN << {} >>          \* one line, whatever it is
                ELSE Exactly(
                     IF run.flat THEN FlatLines(v, "")
                     ELSE FlattenSeq([i \in 1..Len(roots) |->
                            IF run.collapse THEN CollapsedLines(v, roots[i], 0) ELSE TreeLines(v, roots[i], 0)]))
    IN  body \o Exactly(<<"--------------------", PadLeft(MoneyText(v.tot[""]), 20)>>)

BalanceLines(o, run) == BalanceOf(PostingsOf(Selected(o, run)), run)

(* ---- statistics ------------------------------------------------------- *)
HeadIs(a, name) == Split(a, ":")[1] = name

(* net amount per day of the covered postings below the named account *)
Buckets(sel, name, sign) ==
    LET days == {sel[i].t.date : i \in {k \in 1..Len(sel) :
                     \E j \in 1..Len(sel[k].ps) : HeadIs(sel[k].ps[j].account, name)}}
        at(d) == LET w == SelectSeq(PostingsOf(SelectSeq(sel, LAMBDA x : x.t.date = d)),
                                    LAMBDA p : HeadIs(p.account, name))
                 IN  BigSum([i \in 1..Len(w) |-> w[i].amount.q])
    IN  [d \in days |-> IF sign < 0 THEN Neg(at(d)) ELSE at(d)]

(* Income is used up oldest first.  pay: one expense of the given size on  *)
(* day n against the incomes q (sequence of [n, left]) from position i on; *)
(* the result is what is left and the ages of the money used.              *)
RECURSIVE Pay(_, _, _, _, _)
Pay(n, size, q, i, ages) ==
    IF i > Len(q) THEN [q |-> q, ages |-> ages]
    ELSE IF q[i].left = Zero THEN Pay(n, size, q, i + 1, ages)
    ELSE IF Less(q[i].left, size)
         THEN Pay(n, Sub(size, q[i].left), [q EXCEPT ![i].left = Zero], i + 1, Append(ages, n - q[i].n))
         ELSE [q |-> [q EXCEPT ![i].left = Sub(@, size)], ages |-> Append(ages, n - q[i].n)]
RECURSIVE PayAll(_, _, _, _)
PayAll(es, i, q, ages) ==
    IF i > Len(es) THEN ages
    ELSE LET r == Pay(es[i].n, es[i].left, q, 1, ages) IN PayAll(es, i + 1, r.q, r.ages)

RECURSIVE IntSum(_, _)
IntSum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + IntSum(q, i + 1)

RoundHalfEven(a, b) == LET d == a \div b  r == a % b
                       IN  IF 2 * r < b THEN d ELSE IF 2 * r > b THEN d + 1
                           ELSE IF d % 2 = 0 THEN d ELSE d + 1

AgeLine(sel) ==
    LET inc == Buckets(sel, IncomeName, -1)
        exp == Buckets(sel, ExpensesName, 1)
        seq(b) == LET ds == DaysIn(DOMAIN b) IN [i \in 1..Len(ds) |-> [n |-> DayNumber(ds[i]), left |-> b[ds[i]]]]
        all == PayAll(seq(exp), 1, seq(inc), <<>>)
        ages == SubSeq(all, IF Len(all) > 10 THEN Len(all) - 9 ELSE 1, Len(all))
        sum == IntSum(ages, 1)
        mean == IF ages = <<>> \/ sum <= 0 THEN 0 ELSE RoundHalfEven(sum, Len(ages))
    IN  IF (\E d \in DOMAIN inc : IsNeg(inc[d])) \/ (\E d \in DOMAIN exp : IsNeg(exp[d]))
        THEN {}
        ELSE {"Age of money:\t\t" \o ToString(mean) \o " days"}

PerDay(n, d) ==                 \* n/d to one decimal; ties may go either way
    LET q == (10 * n) \div d
        r == (10 * n) % d
        up == IF 2 * r < d THEN {q} ELSE IF 2 * r > d THEN {q + 1} ELSE {q, q + 1}
    IN  {ToString(x \div 10) \o "." \o ToString(x % 10) : x \in up}

(* A run that was told the time says how long ago its days were. *)
Since(day, run) == IF run.moment = <<>> THEN "" ELSE " (" \o Ago(day, run.moment) \o ")"

StatisticsLines(o, run) ==
    LET sel == Selected(o, run)
        ns == {DayNumber(sel[i].t.date) : i \in 1..Len(sel)}
        dayAt(n) == sel[CHOOSE i \in 1..Len(sel) : DayNumber(sel[i].t.date) = n].t.date
        fs == {sel[i].file : i \in 1..Len(sel)}
        as == UNION {{sel[i].ps[j].account : j \in 1..Len(sel[i].ps)} : i \in 1..Len(sel)}
        payees == {sel[i].t.payee : i \in 1..Len(sel)}
        span == Max(ns) - Min(ns)
        paths == SortedStrings(fs)
    IN  IF sel = <<>> THEN << {"No transactions matched arguments."} >>
        ELSE << {"Transactions found in " \o ToString(Cardinality(fs)) \o " files:"} >>
             \o [i \in 1..Len(paths) |-> {"  " \o paths[i]}]
             \o << {"First transaction:\t" \o DayText(dayAt(Min(ns))) \o Since(dayAt(Min(ns)), run)},
                   {"Last transaction:\t" \o DayText(dayAt(Max(ns))) \o Since(dayAt(Max(ns)), run)},
                   {"Time period:\t\t" \o ToString(span) \o " days"},
                   {"Transactions:\t\t" \o ToString(Len(sel)) \o " (" \o p \o " per day)"
                        : p \in PerDay(Len(sel), IF span = 0 THEN 1 ELSE span)},
                   {"Unique accounts:\t" \o ToString(Cardinality(as))},
                   {"Unique payees:\t\t" \o ToString(Cardinality(payees))},
                   AgeLine(sel) >>

(* ---- budget ----------------------------------------------------------- *)
AllocMonth(a) == IF a.month = NoDay THEN <<1, 1>> ELSE MonthOf(a.month)

(* Everything that happens in a budget, in any order, as                   *)
(* [m: month, kind, cat: category or <<>>, amount].                        *)
BudgetItems(o, run) ==
    LET al == Allocations(o)
        sel == Selected(o, run)
        fromAlloc(x) == <<[m |-> AllocMonth(x.entry), kind |-> "month", cat |-> <<>>, amount |-> [c |-> "", q |-> Zero]]>>
                        \o [i \in 1..Len(x.entry.postings) |->
                              LET p == x.entry.postings[i] IN
                              [m |-> AllocMonth(x.entry), kind |-> "allocated", cat |-> <<Split(p.account, ":")[1]>>,
                               amount |-> p.amount]]
        fromTxn(x) == LET item(p) == LET q == Split(p.account, ":") IN
                            IF q[1] = IncomeName
                            THEN [m |-> MonthOf(x.t.date), kind |-> "income", cat |-> <<>>, amount |-> p.amount]
                            ELSE [m |-> MonthOf(x.t.date), kind |-> "spent",
                                  cat |-> IF Len(q) > 1 THEN <<q[2]>> ELSE <<>>, amount |-> p.amount]
                          w == SelectSeq(x.ps, LAMBDA p : HeadIs(p.account, IncomeName) \/ HeadIs(p.account, ExpensesName))
                      IN [i \in 1..Len(w) |-> item(w[i])]
    IN  FlattenSeq([i \in 1..Len(al) |-> fromAlloc(al[i])]) \o FlattenSeq([i \in 1..Len(sel) |-> fromTxn(sel[i])])

ItemSum(items, kind) == LET w == SelectSeq(items, LAMBDA x : x.kind = kind)
                        IN  BigSum([i \in 1..Len(w) |-> w[i].amount.q])
ItemCommodity(items) == LET w == SelectSeq(items, LAMBDA x : x.amount.c # "")
                        IN  IF w = <<>> THEN "" ELSE w[1].amount.c

RowText(cat, b, a, v) == PadRight(cat, 30) \o " | " \o PadLeft(b, 20) \o " | " \o PadLeft(a, 20) \o " | " \o PadLeft(v, 20) \o " |"
FundsText(label, v) == PadLeft(label, 30) \o " | " \o PadLeft(v, 20)

CategoryFigures(items, cat) ==
    LET w == SelectSeq(items, LAMBDA x : x.cat = <<cat>>)
        b == ItemSum(w, "allocated")
        a == Neg(ItemSum(w, "spent"))
    IN  [budgeted |-> b, activity |-> a, available |-> Add(b, a), c |-> ItemCommodity(w)]

CategoriesOf(items) == {c[1] : c \in {items[i].cat : i \in 1..Len(items)} \ {<<>>}}

MonthLines(items, m) ==
    LET mine == SelectSeq(items, LAMBDA x : x.m = m)
        inc  == SelectSeq(mine, LAMBDA x : x.kind = "income")
        cats == SortedStrings(CategoriesOf(mine))
        row(c) == LET f == CategoryFigures(mine, c)
                  IN  RowText(c, MoneyText(f.budgeted), MoneyText(f.activity), f.c \o MoneyText(f.available))
    IN  <<DayText(<<m[1], m[2], 1>>) \o " 00:00:00 +0000 UTC", "",
          FundsText("Funds", ItemCommodity(inc) \o MoneyText(Neg(ItemSum(inc, "income")))),
          FundsText("Overspent in 2020-??", "£??.??"), FundsText("Budgeted", "£??.??"),
          FundsText("Budgeted in the future", "£??.??"), Repeat("-", 53),
          FundsText("To be budgeted", "£??.??"), "", "",
          PadRight("Category", 30) \o " | " \o PadRight("Budgeted", 20) \o " | " \o PadRight("Activity", 20)
              \o " | " \o PadRight("Available", 20) \o " |",
          Repeat("-", 101)>>
        \o [i \in 1..Len(cats) |-> row(cats[i])] \o <<"">>

BudgetLines(o, run) ==
    LET items == BudgetItems(o, run)
        ms == SetToSortSeq({items[i].m : i \in 1..Len(items)}, LAMBDA a, b : MonthNumber(a) < MonthNumber(b))
    IN  FlattenSeq([i \in 1..Len(ms) |-> MonthLines(items, ms[i])])

(* ---- one command ------------------------------------------------------ *)
ReportLines(o, run) ==
    CASE run.cmd = "print"      -> Exactly(PrintLines(o, run))
      [] run.cmd = "accounts"   -> Exactly(AccountLines(o, run))
      [] run.cmd = "payees"     -> Exactly(PayeeLines(o, run))
      [] run.cmd = "balance"    -> BalanceLines(o, run)
      [] run.cmd = "statistics" -> StatisticsLines(o, run)
      [] run.cmd = "budget"     -> Exactly(BudgetLines(o, run))

(* Whether a command prints an error, and the locations that error starts  *)
(* with: those where reading stopped, none known for a bad date option.    *)
DateError(o, run) == BadDates(run) /\ Transactions(o) # <<>>
Fails(o, e, run) == e # NoError \/ DateError(o, run)
ErrorLines(o, e, run) ==
    IF DateError(o, run) THEN <<>>
    ELSE [i \in 1..Len(e) |-> "error at " \o e[i][1] \o ":" \o ToString(e[i][2])]

(* What may be observed: an outcome is [lines, code]. *)
AcceptsLines(expected, lines) ==
    /\ Len(expected) = Len(lines)
    /\ \A i \in 1..Len(lines) : expected[i] = {} \/ lines[i] \in expected[i]
AcceptsError(chain, lines) ==
    /\ Len(lines) > Len(chain)                       \* a message follows the locations
    /\ Len(lines) <= Len(chain) + 3                  \* and nothing else does
    /\ \A i \in 1..Len(chain) : lines[i] = chain[i]
    /\ \A i \in 1..Len(lines) : lines[i] # "--------------------"

Conforms(o, e, run, obs) ==
    IF Fails(o, e, run)
    THEN obs.code \in {0, 1} /\ AcceptsError(ErrorLines(o, e, run), obs.lines)
    ELSE obs.code = 0 /\ AcceptsLines(ReportLines(o, run), obs.lines)
=============================================================================
