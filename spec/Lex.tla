-------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* What one line of a journal says.  LexLine(s) is a record whose field k  *)
(* is the kind of line:                                                    *)
(*   blank    empty line                                                   *)
(*   margin   comment in the first column                                  *)
(*   skip     indented line with nothing but spaces                        *)
(*   include  path                                                         *)
(*   period   text                         (a budget entry's header)       *)
(*   header   date, state, payee, note     (a transaction's header)        *)
(*   note     text                         (an indented comment)           *)
(*   posting  account, elided, commodity, quantity                         *)
(*   bad      anything else                                                *)
(***************************************************************************)
EXTENDS Big, Cal

Bad == [k |-> "bad"]

(* the first position >= i that is not white space *)
SkipSpaces(s, i) == LET P(c) == c \notin Spaces IN FirstPos(s, i, P)
(* how wide the white space [i, j) counts: a tab counts 2, other exotic spaces nothing *)
RECURSIVE Width(_, _, _)
Width(s, i, j) == IF i >= j THEN 0
                  ELSE (CASE Ch(s, i) = " " -> 1 [] Ch(s, i) = TAB -> 2 [] OTHER -> 0) + Width(s, i + 1, j)

DoubleSpaceAt(s, j) == Ch(s, j) = " " /\ j < Len(s) /\ Ch(s, j + 1) = " "

(* A field runs to a comment mark, a tab, two spaces or the end of the     *)
(* line; one space before its end does not belong to it.                   *)
FieldEnd(s, i) ==
    IF \E j \in i..Len(s) : Ch(s, j) \in CommentMarks \/ Ch(s, j) = TAB \/ DoubleSpaceAt(s, j)
    THEN CHOOSE j \in i..Len(s) :
            /\ Ch(s, j) \in CommentMarks \/ Ch(s, j) = TAB \/ DoubleSpaceAt(s, j)
            /\ \A k \in i..(j - 1) : ~(Ch(s, k) \in CommentMarks \/ Ch(s, k) = TAB \/ DoubleSpaceAt(s, k))
    ELSE Len(s) + 1
FieldText(s, i) == LET e == FieldEnd(s, i)
                   IN  IF e <= Len(s) /\ Ch(s, e) = " " THEN Slice(s, i, e)
                       ELSE DropTrailingSpace(Slice(s, i, e))

(* An account name may contain comment marks; it ends at a tab, two spaces *)
(* or the end of the line.                                                 *)
NameEnd(s, i) ==
    IF \E j \in i..Len(s) : Ch(s, j) = TAB \/ DoubleSpaceAt(s, j)
    THEN CHOOSE j \in i..Len(s) :
            /\ Ch(s, j) = TAB \/ DoubleSpaceAt(s, j)
            /\ \A k \in i..(j - 1) : ~(Ch(s, k) = TAB \/ DoubleSpaceAt(s, k))
    ELSE Len(s) + 1

(* ---- amounts ---------------------------------------------------------- *)
NoAmount == [ok |-> FALSE, q |-> Zero]

ParseAmount(t) ==
    LET neg    == t # "" /\ Ch(t, 1) = "-"
        signed == t # "" /\ Ch(t, 1) \in {"-", "+"}
        body   == IF signed THEN From(t, 2) ELSE t
        P(c)   == c = "."
        dot    == FirstPos(body, 1, P)
        whole  == SubSeq(body, 1, dot - 1)
        frac   == From(body, dot + 1)
        ok     == /\ AllDigits(whole)
                  /\ dot <= Len(body) => AllDigits(frac) /\ Len(frac) \in {1, 2}
        cents  == CASE dot > Len(body) -> "00" [] Len(frac) = 1 -> frac \o "0" [] OTHER -> frac
    IN  IF ~ok THEN NoAmount
        ELSE LET q == FromDigits(neg, whole \o cents)
             IN  IF InInt64(q) THEN [ok |-> TRUE, q |-> q] ELSE NoAmount

(* ---- kinds of line ---------------------------------------------------- *)
LexInclude(s) ==
    LET P(c) == c = " "
        e    == FirstPos(s, 1, P)
        b    == SkipSpaces(s, e)
        path == FieldText(s, b)
    IN  IF Slice(s, 1, e) # "include" \/ Width(s, e, b) = 0 \/ path = "" THEN Bad
        ELSE [k |-> "include", path |-> path]

LexPeriod(s) ==
    LET b == SkipSpaces(s, 2)
    IN  IF Width(s, 2, b) = 0 THEN Bad ELSE [k |-> "period", text |-> FieldText(s, b)]

LexHeader(s) ==
    LET P(c)  == c = " "
        e     == FirstPos(s, 1, P)
        date  == ParseDay(Slice(s, 1, e))
        b     == SkipSpaces(s, e)
        mark  == IF b <= Len(s) /\ Ch(s, b) \in {"!", "*"} THEN Ch(s, b) ELSE " "
        p     == IF mark = " " THEN b ELSE SkipSpaces(s, b + 1)
        payee == FieldText(s, p)
        n     == SkipSpaces(s, FieldEnd(s, p))
        note  == IF n > Len(s) THEN ""
                 ELSE TrimLeft(From(s, IF Ch(s, n) \in CommentMarks THEN n + 1 ELSE n))
    IN  IF date = NoDay THEN Bad
        ELSE [k |-> "header", date |-> date, state |-> mark, payee |-> payee, note |-> note]

LexPosting(s, i) ==
    LET e    == NameEnd(s, i)
        name == DropTrailingSpace(Slice(s, i, e))
        a    == SkipSpaces(s, e)
        Stop(c) == c \in Numbers \/ c \in {"-", "+", " ", TAB}
        ce   == FirstPos(s, a, Stop)
        q    == SkipSpaces(s, ce)
        com  == Slice(s, a, ce) \o (IF Width(s, ce, q) > 0 THEN " " ELSE "")
        amt  == ParseAmount(FieldText(s, q))
    IN  IF a > Len(s) \/ Ch(s, a) \in CommentMarks
        THEN [k |-> "posting", account |-> name, elided |-> TRUE, commodity |-> "", quantity |-> Zero]
        ELSE IF ~amt.ok THEN Bad
        ELSE [k |-> "posting", account |-> name, elided |-> FALSE, commodity |-> com, quantity |-> amt.q]

LexIndented(s) ==
    LET b == SkipSpaces(s, 1)
    IN  IF b > Len(s) THEN [k |-> "skip"]
        ELSE IF Ch(s, b) \in CommentMarks THEN [k |-> "note", text |-> TrimLeft(From(s, b + 1))]
        ELSE IF Ch(s, b) \in Letters THEN LexPosting(s, b)
        ELSE Bad

LexLine(s) ==
    IF s = "" THEN [k |-> "blank"]
    ELSE LET c == Ch(s, 1)
         IN  IF c \in CommentMarks THEN [k |-> "margin"]
             ELSE IF c = "i" THEN LexInclude(s)
             ELSE IF c = "~" THEN LexPeriod(s)
             ELSE IF c \in Numbers THEN LexHeader(s)
             ELSE IF c = TAB \/ (c = " " /\ Len(s) > 1 /\ Ch(s, 2) = " ") THEN LexIndented(s)
             ELSE Bad
=============================================================================
