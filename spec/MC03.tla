------------------------------- MODULE MC03 ---------------------------------
(* C03: every sequence of a few kinds of lines, notes numbered so that it   *)
(* shows where they end up.                                                 *)
EXTENDS MC

Lines03(n) == {"2020-01-05 * Shop    ; head", "2020-01-06 Next", "    ; note " \o ToString(n), "    A:B    £1.00",
               "    C    £-1.00", "    D", "; margin", "", "    ", "~ 2020-02"}
Blocks03(n) == {B(<<s>>) : s \in Lines03(n)}
Max03 == IF Deep THEN 6 ELSE 5
Runs03 == <<Run("print")>>

Count(q, P(_)) == Cardinality({i \in 1..Len(q) : P(q[i])})
RECURSIVE SumOver(_, _)
SumOver(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumOver(q, i + 1)
PostingsIn(e) == Len(e.postings)
NotesIn(e) == Len(e.notes) + SumOver([j \in 1..Len(e.postings) |-> Len(e.postings[j].comments)], 1)
(* Nothing is lost, nothing appears from nowhere. *)
AllDelivered == Accepted =>
    LET ls == files[RootFile]
        IsPosting(s) == LexLine(s).k = "posting"
        IsHeader(s)  == LexLine(s).k \in {"header", "period"}
        IsNote(s)    == LexLine(s).k = "note"
        loose == {i \in 1..Len(ls) : IsNote(ls[i]) /\ \A j \in 1..(i - 1) : ~IsHeader(ls[j]) \/ \E k \in j..i : LexLine(ls[k]).k = "blank"}
    IN  /\ Len(out) = Count(ls, IsHeader)
        /\ SumOver([i \in 1..Len(out) |-> PostingsIn(out[i].entry)], 1) = Count(ls, IsPosting)
        /\ SumOver([i \in 1..Len(out) |-> NotesIn(out[i].entry)], 1) = Count(ls, IsNote) - Cardinality(loose)
==============================================================================
