-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters and strings.  Strings are TLA+ strings; the i-th character   *)
(* of s is the one-character string Ch(s, i).  The alphabet is finite: it  *)
(* has to contain every character that occurs in a journal given to the    *)
(* model, in code point order (which is also the order of UTF-8 bytes).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Ch(s, i) == SubSeq(s, i, i)

TAB  == "\t"
NBSP == " "          \* U+00A0, a space to the lexer that is neither ' ' nor tab

ALPHABET == TAB \o " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
            \o NBSP \o "£½ÉßéΩω٣€日�"

Alphabet == {Ch(ALPHABET, i) : i \in 1..Len(ALPHABET)}
Rank     == TLCEval([c \in Alphabet |-> CHOOSE i \in 1..Len(ALPHABET) : Ch(ALPHABET, i) = c])

CharsOf(s) == {Ch(s, i) : i \in 1..Len(s)}

Digits     == CharsOf("0123456789")
Numbers    == Digits \cup CharsOf("½٣")          \* what unicode calls a number
UpperCase  == CharsOf("ABCDEFGHIJKLMNOPQRSTUVWXYZÉΩ")
Letters    == UpperCase \cup CharsOf("abcdefghijklmnopqrstuvwxyzßéω日")
Spaces     == {" ", TAB, NBSP}
CommentMarks == {";", "#"}

DigitVal == TLCEval([c \in Digits |-> Rank[c] - Rank["0"]])

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZÉΩ"
LOWER == "abcdefghijklmnopqrstuvwxyzéω"
LowerOf == TLCEval([c \in Alphabet |->
              IF c \in UpperCase
              THEN Ch(LOWER, CHOOSE i \in 1..Len(UPPER) : Ch(UPPER, i) = c)
              ELSE c])

RECURSIVE ConcatFrom(_, _)
ConcatFrom(q, i) == IF i > Len(q) THEN "" ELSE q[i] \o ConcatFrom(q, i + 1)
Concat(q) == ConcatFrom(q, 1)

Lower(s) == Concat([i \in 1..Len(s) |-> LowerOf[Ch(s, i)]])
HasUpper(s) == \E i \in 1..Len(s) : Ch(s, i) \in UpperCase

(* the first position >= i whose character satisfies P; Len(s)+1 if none *)
FirstPos(s, i, P(_)) ==
    IF \E j \in i..Len(s) : P(Ch(s, j))
    THEN CHOOSE j \in i..Len(s) : P(Ch(s, j)) /\ \A k \in i..(j - 1) : ~P(Ch(s, k))
    ELSE Len(s) + 1

From(s, i)       == SubSeq(s, i, Len(s))
Slice(s, i, j)   == SubSeq(s, i, j - 1)               \* half open: [i, j)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

TrimLeft(s) == LET P(c) == c # " " IN From(s, FirstPos(s, 1, P))
DropTrailingSpace(s) == IF EndsWith(s, " ") THEN SubSeq(s, 1, Len(s) - 1) ELSE s

RECURSIVE Split(_, _)
Split(s, c) ==
    LET P(x) == x = c
        j    == FirstPos(s, 1, P)
    IN  IF j > Len(s) THEN <<s>>
        ELSE <<Slice(s, 1, j)>> \o Split(From(s, j + 1), c)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, c, i) == IF i > Len(q) THEN ""
                     ELSE (IF i = 1 THEN "" ELSE c) \o q[i] \o JoinFrom(q, c, i + 1)
Join(q, c) == JoinFrom(q, c, 1)

(* byte order of UTF-8 strings *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(a) THEN i <= Len(b)
    ELSE IF i > Len(b) THEN FALSE
    ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
    ELSE Rank[Ch(a, i)] < Rank[Ch(b, i)]
StrLess(a, b) == a # b /\ LessFrom(a, b, 1)

SortedStrings(S) == SetToSortSeq(S, StrLess)

RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)
PadLeft(s, n)  == Repeat(" ", n - Len(s)) \o s
PadRight(s, n) == s \o Repeat(" ", n - Len(s))

Last1(q)  == q[Len(q)]
AllBut1(q) == SubSeq(q, 1, Len(q) - 1)

(* FlattenSeq without recursion depth problems is in SequencesExt *)
=============================================================================
