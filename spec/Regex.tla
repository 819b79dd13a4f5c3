------------------------------- MODULE Regex --------------------------------
(***************************************************************************)
(* The regular expressions of filters: literals, escapes, '.', classes     *)
(* with ranges, \d \w \s and their complements, groups, alternatives, the  *)
(* repetitions * + ? {n} {n,} {n,m} and their lazy forms, and ^ $ \b \B \A *)
(* \z.  A pattern is parsed to a tree, and a tree is matched by following  *)
(* the set of all positions its matches can end at, so that what matches   *)
(* does not depend on any order of search.                                 *)
(***************************************************************************)
EXTENDS Text

(* ---- trees -------------------------------------------------------------- *)
Lit(cs)          == [op |-> "lit", cs |-> cs]               \* one character of cs
RxSeq(q)         == [op |-> "seq", subs |-> q]
RxAlt(q)         == [op |-> "alt", subs |-> q]
Rep(n, min, max) == [op |-> "rep", sub |-> n, min |-> min, max |-> max]   \* max = -1: any number
At(what)         == [op |-> what]                           \* "begin", "end", "word", "inside"

DigitChars == CharsOf("0123456789")
WordChars  == CharsOf("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz")
SpaceChars == {" ", TAB}
Punctuation == {c \in Alphabet : Rank[c] <= Rank["~"]} \ (WordChars \ {"_"})

Shorthand(c) == CASE c = "d" -> DigitChars [] c = "w" -> WordChars [] c = "s" -> SpaceChars
                  [] c = "D" -> Alphabet \ DigitChars [] c = "W" -> Alphabet \ WordChars [] c = "S" -> Alphabet \ SpaceChars
Shorthands == {"d", "w", "s", "D", "W", "S"}
Controls   == {"a", "f", "n", "r", "v"}                     \* \t is in the alphabet, these are not

(* without regard to case *)
Fold(cs) == LET ls == {LowerOf[c] : c \in cs} IN {c \in Alphabet : LowerOf[c] \in ls}

(* ---- parsing ------------------------------------------------------------ *)
(* Every parser returns [ok, node, at]: whether there is such a thing at    *)
(* the position i of p, its tree, and where it ends.                        *)
Fails1 == [ok |-> FALSE, node |-> At("end"), at |-> 0]
Parsed(node, i) == [ok |-> TRUE, node |-> node, at |-> i]
CharAt(p, i) == IF i <= Len(p) THEN Ch(p, i) ELSE ""

(* a character of a class, as it is or escaped *)
ClassChar(p, i) ==
    LET c == CharAt(p, i)  e == CharAt(p, i + 1) IN
    IF c = "" THEN [ok |-> FALSE, cs |-> {}, at |-> 0]
    ELSE IF c # "\\" THEN [ok |-> TRUE, cs |-> {c}, at |-> i + 1]
    ELSE IF e \in Punctuation \/ e = "t" THEN [ok |-> TRUE, cs |-> {IF e = "t" THEN TAB ELSE e}, at |-> i + 2]
    ELSE [ok |-> e \in Controls, cs |-> {}, at |-> i + 2]

RECURSIVE ClassFrom(_, _, _, _)
ClassFrom(p, i, cs, first) ==                               \* [ok, cs, at]
    IF CharAt(p, i) = "]" /\ ~first THEN [ok |-> TRUE, cs |-> cs, at |-> i + 1]
    ELSE IF CharAt(p, i) = "\\" /\ CharAt(p, i + 1) \in Shorthands
    THEN ClassFrom(p, i + 2, cs \cup Shorthand(Ch(p, i + 1)), FALSE)
    ELSE LET lo == ClassChar(p, i) IN
         IF ~lo.ok THEN lo
         ELSE IF CharAt(p, lo.at) = "-" /\ CharAt(p, lo.at + 1) \notin {"]", ""}
         THEN LET hi == ClassChar(p, lo.at + 1)
                  a == CHOOSE c \in lo.cs : TRUE
                  z == CHOOSE c \in hi.cs : TRUE
              IN  IF ~hi.ok \/ lo.cs = {} \/ hi.cs = {} THEN [ok |-> FALSE, cs |-> {}, at |-> 0]
                  ELSE IF Rank[a] > Rank[z] THEN [ok |-> FALSE, cs |-> {}, at |-> 0]
                  ELSE ClassFrom(p, hi.at, cs \cup {c \in Alphabet : Rank[a] <= Rank[c] /\ Rank[c] <= Rank[z]}, FALSE)
         ELSE ClassFrom(p, lo.at, cs \cup lo.cs, FALSE)

Class(p, i, exact) ==                                       \* i: after the [
    LET negative == CharAt(p, i) = "^"
        r == ClassFrom(p, IF negative THEN i + 1 ELSE i, {}, TRUE)
        cs == IF exact THEN r.cs ELSE Fold(r.cs)
    IN  IF ~r.ok THEN Fails1 ELSE Parsed(Lit(IF negative THEN Alphabet \ cs ELSE cs), r.at)

RECURSIVE NumberEnd(_, _)
NumberEnd(p, i) == IF CharAt(p, i) \in Digits THEN NumberEnd(p, i + 1) ELSE i
RECURSIVE NumberAt(_, _, _, _)
NumberAt(p, i, j, n) == IF i = j THEN n ELSE NumberAt(p, i + 1, j, 10 * n + DigitVal[Ch(p, i)])
IsNumber(p, i, j) == j > i /\ j - i <= 4 /\ (Ch(p, i) # "0" \/ j = i + 1)
(* {n}, {n,} or {n,m} at i; anything else there is just characters *)
Counted(p, i) ==                                            \* [is, min, max, at]
    LET a == NumberEnd(p, i + 1)
        b == NumberEnd(p, a + 1)
        none == [is |-> FALSE, min |-> 0, max |-> 0, at |-> 0]
        n == NumberAt(p, i + 1, a, 0)
    IN  IF CharAt(p, i) # "{" \/ ~IsNumber(p, i + 1, a) THEN none
        ELSE IF CharAt(p, a) = "}" THEN [is |-> TRUE, min |-> n, max |-> n, at |-> a + 1]
        ELSE IF CharAt(p, a) # "," THEN none
        ELSE IF CharAt(p, a + 1) = "}" THEN [is |-> TRUE, min |-> n, max |-> -1, at |-> a + 2]
        ELSE IF IsNumber(p, a + 1, b) /\ CharAt(p, b) = "}"
        THEN [is |-> TRUE, min |-> n, max |-> NumberAt(p, a + 1, b, 0), at |-> b + 1]
        ELSE none
(* a repetition at i, of whatever is before it *)
Repetition(p, i) ==
    LET c == CharAt(p, i) IN
    IF c \in {"*", "+", "?"}
    THEN [is |-> TRUE, min |-> IF c = "+" THEN 1 ELSE 0, max |-> IF c = "?" THEN 1 ELSE -1, at |-> i + 1]
    ELSE Counted(p, i)

RECURSIVE ParseAlt(_, _, _, _)      \* alternatives from i on, after those in acc
RECURSIVE ParseSeq(_, _, _, _)      \* a sequence from i on, after the items in acc

ParseAtom(p, i, exact) ==
    LET c == Ch(p, i)  e == CharAt(p, i + 1)
        literal(x) == Lit(IF exact THEN {x} ELSE Fold({x}))
    IN  CASE c = "\\" -> IF e = "" THEN Fails1
                         ELSE IF e \in Shorthands THEN Parsed(Lit(Shorthand(e)), i + 2)
                         ELSE IF e = "b" THEN Parsed(At("word"), i + 2)
                         ELSE IF e = "B" THEN Parsed(At("inside"), i + 2)
                         ELSE IF e = "A" THEN Parsed(At("begin"), i + 2)
                         ELSE IF e = "z" THEN Parsed(At("end"), i + 2)
                         ELSE IF e = "t" THEN Parsed(Lit({TAB}), i + 2)
                         ELSE IF e \in Controls THEN Parsed(Lit({}), i + 2)
                         ELSE IF e \in Punctuation THEN Parsed(Lit({e}), i + 2)
                         ELSE Fails1
          [] c = "." -> Parsed(Lit(Alphabet), i + 1)
          [] c = "^" -> Parsed(At("begin"), i + 1)
          [] c = "$" -> Parsed(At("end"), i + 1)
          [] c = "[" -> Class(p, i + 1, exact)
          [] c = "(" -> LET r == ParseAlt(p, IF SubSeq(p, i + 1, IF i + 2 <= Len(p) THEN i + 2 ELSE Len(p)) = "?:" THEN i + 3 ELSE i + 1, <<>>, exact)
                        IN  IF r.ok /\ CharAt(p, r.at) = ")" THEN Parsed(r.node, r.at + 1) ELSE Fails1
          [] c \in {"*", "+", "?"} \/ (c = "{" /\ Counted(p, i).is) -> Fails1
          [] OTHER -> Parsed(literal(c), i + 1)

ParseItem(p, i, exact) ==
    LET a == ParseAtom(p, i, exact) IN
    IF ~a.ok THEN a
    ELSE LET r == Repetition(p, a.at)
             after == IF CharAt(p, r.at) = "?" THEN r.at + 1 ELSE r.at      \* lazy: matches the same texts
         IN  IF ~r.is THEN a
             ELSE IF Repetition(p, after).is \/ r.min > 1000 \/ r.max > 1000 \/ (r.max >= 0 /\ r.min > r.max) THEN Fails1
             ELSE Parsed(Rep(a.node, r.min, r.max), after)

ParseSeq(p, i, acc, exact) ==
    IF CharAt(p, i) \in {"", "|", ")"} THEN Parsed(RxSeq(acc), i)
    ELSE LET r == ParseItem(p, i, exact) IN IF ~r.ok THEN r ELSE ParseSeq(p, r.at, Append(acc, r.node), exact)

ParseAlt(p, i, acc, exact) ==
    LET r == ParseSeq(p, i, <<>>, exact) IN
    IF ~r.ok THEN r
    ELSE IF CharAt(p, r.at) = "|" THEN ParseAlt(p, r.at + 1, Append(acc, r.node), exact)
    ELSE Parsed(RxAlt(Append(acc, r.node)), r.at)

(* ---- matching ----------------------------------------------------------- *)
IsWordAt(s, i) == i \in 1..Len(s) /\ Ch(s, i) \in WordChars
Boundary(s, i) == IsWordAt(s, i - 1) # IsWordAt(s, i)

(* where matches of n in s that begin at one of the positions from can end *)
RECURSIVE Ends(_, _, _)
RECURSIVE EndsSeq(_, _, _, _)
EndsSeq(q, i, s, from) == IF i > Len(q) \/ from = {} THEN from ELSE EndsSeq(q, i + 1, s, Ends(q[i], s, from))
RECURSIVE EndsRep(_, _, _, _, _)
EndsRep(n, s, from, min, max) ==
    IF min > 0 THEN EndsRep(n, s, Ends(n, s, from), min - 1, IF max > 0 THEN max - 1 ELSE max)
    ELSE IF max = 0 \/ from = {} THEN from
    ELSE LET more == from \cup Ends(n, s, from) IN
         IF more = from THEN from ELSE EndsRep(n, s, more, 0, IF max > 0 THEN max - 1 ELSE max)
Ends(n, s, from) ==
    CASE n.op = "lit"    -> {i + 1 : i \in {j \in from : j <= Len(s) /\ Ch(s, j) \in n.cs}}
      [] n.op = "seq"    -> EndsSeq(n.subs, 1, s, from)
      [] n.op = "alt"    -> UNION {Ends(n.subs[i], s, from) : i \in 1..Len(n.subs)}
      [] n.op = "rep"    -> EndsRep(n.sub, s, from, n.min, n.max)
      [] n.op = "begin"  -> from \cap {1}
      [] n.op = "end"    -> from \cap {Len(s) + 1}
      [] n.op = "word"   -> {i \in from : Boundary(s, i)}
      [] n.op = "inside" -> {i \in from : ~Boundary(s, i)}

(* ---- patterns ----------------------------------------------------------- *)
(* A pattern as given on the command line: case matters only if it has an  *)
(* upper-case letter.  It matches anywhere.                                *)
Pattern(p) == ParseAlt(p, 1, <<>>, HasUpper(p))
PatternMatches(r, s) == Ends(r.node, s, 1..(Len(s) + 1)) # {}
ValidPattern(p) == LET r == Pattern(p) IN r.ok /\ r.at = Len(p) + 1

(* A filter argument: what it looks at and its pattern. *)
Filter(arg) ==
    LET kind == CASE StartsWith(arg, "@") -> "payee" [] StartsWith(arg, "=") -> "note" [] OTHER -> "account"
    IN  [kind |-> kind, pat |-> Pattern(IF kind = "account" THEN arg ELSE From(arg, 2))]
=============================================================================
