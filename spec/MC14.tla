------------------------------- MODULE MC14 ---------------------------------
(* C14: a root file and two more in a folder, each with one of several      *)
(* contents; the last may be missing.                                       *)
EXTENDS MC

T14(p) == <<"2020-01-05 " \o p, "    A    £1", "    B">>
RootTexts == {<<"include sub/a.journal">>, T14("r1") \o <<"include sub/a.journal">> \o T14("r2"),
              T14("r1") \o <<"", "include   sub/b.journal  ; x", "", "include ./sub/a.journal", "">> \o T14("r2"),
              <<"include sub/a.journal", "include sub/a.journal", "">> \o T14("r1"),
              <<"2020-01-05 open", "    A    £1", "include sub/a.journal", "    B", "">>}
ATexts == {<<>>, T14("a1"), T14("a1") \o <<"">>, <<"include b.journal", "">> \o T14("a1"), T14("a1") \o <<"include ../sub/b.journal">>,
           <<"include ../j.journal">>, <<"include a.journal">>, <<"    A    £1">>, <<"", "x">>, <<"2020-01-05 open", "    A    £1">>}
BTexts == {T14("b1"), <<"">>, <<"include a.journal">>, <<"include ../sub/../j.journal">>, T14("b1") \o <<"2020-13-01">>,
           <<"~ 2020-01", "    Food    £1">>}
Files14 == {[f \in {RootFile, "sub/a.journal"} |-> IF f = RootFile THEN r1 ELSE a] : r1 \in RootTexts, a \in ATexts}
           \cup {[f \in {RootFile, "sub/a.journal", "sub/b.journal"} |-> IF f = RootFile THEN r1 ELSE IF f = "sub/a.journal" THEN a ELSE b] :
                   r1 \in RootTexts, a \in ATexts, b \in BTexts}
Runs14 == <<Run("print"), Run("statistics"), Run("accounts"), [Run("statistics") EXCEPT !.args = <<"@a1">>], [Run("statistics") EXCEPT !.args = <<"@b1">>]>>

(* Everything is attributed to the file it is written in. *)
Attributed == \A i \in 1..Len(out) : LET e == out[i].entry IN
    e.kind = "transaction" =>
        \E j \in 1..Len(files[Clean(out[i].file)]) : files[Clean(out[i].file)][j] = DayText(e.date) \o " " \o e.payee
(* The chain of locations leads from the root to the file at fault, every   *)
(* file including the next in the line named.                               *)
ChainLinked == Rejected =>
    /\ err[1][1] = RootFile
    /\ \A i \in 1..(Len(err) - 1) :
          LET ls == files[Clean(err[i][1])] IN
          /\ LexLine(ls[err[i][2]]).k = "include"
          /\ Clean(Resolve(err[i][1], LexLine(ls[err[i][2]]).path)) = Clean(err[i + 1][1])
==============================================================================
