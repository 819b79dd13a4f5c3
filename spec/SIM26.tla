------------------------------- MODULE SIM26 --------------------------------
(* C26: long random histories of filters with random patterns               *)
(* (tlc -simulate).                                                         *)
EXTENDS Filters, Json, IOUtils

(* RandomElement of a constant set is evaluated only once, hence k *)
Among(S, k) == RandomElement({x \in S : k >= 0})
Marks == <<"", "", "", "@", "@", "=", "=", "=", "@@", "=@">>
Pieces == <<"a", "b", "A", "o", "food", "Food", "F", "é", "É", "ω", " ", ":", ".", "1", "a", "b", "o", "^", "$", "\\b", "\\B", "\\A", "\\z", "[a-c]", "[^a]",
            "[A-F]", "[]b]", "[^\\w]", "\\w", "\\S", "\\d", "\\D", "\\W", "\\s", "(a|b)", "(a|)", "(?:ab)?", "(é|o+)", "a*", "b+", "o?", "o{2}", "a{1,}",
            "b{0,1}", "o*?", ".*", ".+", "|", "|", "\\.", "\\(", "()", "(", ")", "[", "*", "{", "o{2,1}", "a**", "\\", "£", "日", "\\é", "[b-a]", "a{", "-">>
RECURSIVE Pieced(_, _)
Pieced(n, k) == IF n = 0 THEN "" ELSE Pieces[Among(1..Len(Pieces), k)] \o Pieced(n - 1, k)
Pattern26(k) == Marks[Among(1..Len(Marks), k)] \o Pieced(Among({0, 1, 1, 2, 2, 2, 3, 3, 4, 6}, k), k)
Words == <<"", "a", "b", "ab", "food", "Food", "FOOD", "aba", "oo", "É", "é", "ωΩ", "b1", "a:b", " ", "1", "x.y", "(", "£5", "日", "_", "Abc def", "-">>
RECURSIVE Worded(_, _)
Worded(n, k) == IF n = 0 THEN "" ELSE Words[Among(1..Len(Words), k)] \o Worded(n - 1, k)
Text26(k) == Worded(Among(0..3, k), k)
Blank == [op |-> "", t |-> 0, p |-> 0, text |-> "", args |-> <<>>]
OpNames == <<"txn", "payee", "header", "note", "posting", "posting", "posting", "comment", "comment", "filter", "filter", "filter", "filter", "filter",
             "any", "any", "any", "any", "string", "upper">>
SimOp(k) == LET name == IF w.txns = <<>> THEN "txn" ELSE OpNames[Among(1..Len(OpNames), k)]
                t == IF w.txns = <<>> THEN 0 ELSE Among(1..Len(w.txns), k)
            IN  [Blank EXCEPT !.op = name, !.t = t,
                              !.p = IF t = 0 THEN 0 ELSE IF w.txns[t].posts = <<>> THEN 0 ELSE Among(1..Len(w.txns[t].posts), k),
                              !.text = IF name = "filter" THEN Pattern26(k) ELSE Text26(k),
                              !.args = IF name = "any" THEN [i \in 1..Among(0..4, k) |-> Pattern26(k + i)] ELSE <<>>]
SimSteps == 30
SimNext == \E o \in {SimOp(Len(hist))} : Apply(IF Sensible(w, o) THEN o ELSE [Blank EXCEPT !.op = "txn", !.text = Text26(Len(hist))])
SimSpec == FiltersInit /\ [][SimNext]_fvars
EmitHistory == Len(hist) = SimSteps =>
    PrintT("CASE " \o ToJson([ops |-> [i \in 1..Len(hist) |-> hist[i].op], res |-> [i \in 1..Len(hist) |-> hist[i].res],
                              seen |-> [i \in 1..Len(hist) |-> hist[i].seen]]))
=============================================================================
